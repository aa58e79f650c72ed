package checks

import (
	"runtime"
	"sync"
	"time"

	"verif/ref"
	"verif/rt"

	"github.com/RadicalApp/complete"

	"github.com/prospik/libsignal-protocol-go/ecc"
	"github.com/prospik/libsignal-protocol-go/keys/identity"
	"github.com/prospik/libsignal-protocol-go/util/keyhelper"
)

func init() {
	rt.Register(&rt.Check{
		ID:   "P29",
		Race: true,
		Rule: "one case starts batches of asynchronous key generations, signatures and verifications of valid and invalid signatures, from several goroutines and with the entropy source failing at times, in a binary built with the race detector; some handlers start further operations and wait for them; a completion handler records every call, and once all started goroutines have ended each handler must have been called exactly once, with the outcome and value an independent check demands. " +
			"Distinct by operation, expected outcome and batch size",
		Cases: tiered(220, 4000),
		Run:   runP29,
		Need:  map[string]int64{"completions": 5000, "failures": 500, "keys": 1000, "signatures": 1000, "verifications": 1000, "entropy_failures": 20, "in_turn": 150, "slow_handlers": 150, "nested": 20},
	})
}

// outcome records the calls of one completion handler.
type outcome struct {
	mu   sync.Mutex
	ok   []any
	fail []string
	res  []*complete.Result // the results as handed over
	slow time.Duration      // how long the handler takes
	done chan bool          // told of every call, if set
}

// took lets a slow handler take its time, and tells who waits for it.
func (o *outcome) took() {
	time.Sleep(o.slow)
	if o.done != nil {
		o.done <- true
	}
}

func (o *outcome) OnSuccess(r *complete.Result) {
	defer o.took()
	o.mu.Lock()
	defer o.mu.Unlock()
	if r == nil {
		o.ok = append(o.ok, nil)
	} else {
		o.ok = append(o.ok, r.Data)
		o.res = append(o.res, r)
	}
}

func (o *outcome) OnFailure(m string) {
	defer o.took()
	o.mu.Lock()
	defer o.mu.Unlock()
	o.fail = append(o.fail, m)
}

// settle waits until every handler was called and all goroutines started since
// base was taken have ended, or, should the library keep some for later use,
// until nothing has happened for a while; slow is how long a handler takes.
// When goroutines have ended but handlers were not called, it waits for some
// more time, as base may have counted goroutines that were about to end.
func settle(c *rt.Case, base int, slow time.Duration, calls func() (all bool, total int)) {
	deadline := time.Now().Add(120 * time.Second)
	quiet, last := time.Now(), -1
	for n := 0; ; n++ {
		if n < 100 {
			runtime.Gosched()
		} else {
			time.Sleep(200 * time.Microsecond)
		}
		all, total := calls()
		if total != last {
			quiet, last = time.Now(), total
		}
		ended := runtime.NumGoroutine() <= base
		switch {
		case ended && all && (slow == 0 || time.Since(quiet) > 2*slow):
			return
		case all && time.Since(quiet) > 500*time.Millisecond+2*slow:
			return
		case ended && time.Since(quiet) > 5*time.Second+2*slow:
			return // the handlers' records tell
		case time.Now().After(deadline):
			return
		}
	}
}

// inTurn runs many operations one after the other, each started once the one
// before has completed: whatever the library keeps for later use, it does not
// need more of it with every operation.
func inTurn(c *rt.Case) {
	r := c.R
	kp := newRefKey(c)
	var rnd [64]byte
	r.Read(rnd[:])
	var s [64]byte
	copy(s[:], ref.Sign(kp.Priv, nil, rnd))
	kind := r.Intn(4)
	base := runtime.NumGoroutine()
	const n = 150
	for i := 0; i < n; i++ {
		o := &outcome{done: make(chan bool, 9)}
		switch kind {
		case 0:
			keyhelper.GenerateIdentityKeyPairAsync(o)
		case 1:
			ecc.CalculateSignatureAsync(ecc.NewDjbECPrivateKey(kp.Priv), nil, o)
		case 2:
			ecc.VerifySignatureAsync(ecc.NewDjbECPublicKey(kp.Pub), nil, s, o)
		case 3:
			ecc.VerifySignatureAsync(ecc.NewDjbECPublicKey(kp.Pub), []byte{1}, s, o)
		}
		select {
		case <-o.done:
		case <-time.After(60 * time.Second):
			c.Fail("never-completed", "operation %d of kind %d did not complete", i, kind)
		}
	}
	left := 0
	for i := 0; i < 50; i++ {
		if left = runtime.NumGoroutine() - base; left <= 8 {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	c.Must(left <= 40, "left-running", "%d operations of kind %d, one after the other, left %d goroutines running", n, kind, left)
	c.Count("in_turn", n)
	c.Sig("in-turn", kind)
}

// nested starts an operation whose handler starts another and waits for it to
// complete, and so on.
func nested(c *rt.Case) {
	r := c.R
	kp := newRefKey(c)
	var rnd [64]byte
	r.Read(rnd[:])
	var s [64]byte
	copy(s[:], ref.Sign(kp.Priv, nil, rnd))
	same, depth := r.Intn(4), 2+r.Intn(2)
	var kinds []int
	for i := 0; i < depth; i++ {
		kinds = append(kinds, pick(c, same, same, r.Intn(4)))
	}
	done := make(chan bool, 99)
	var start func(level int, after func())
	start = func(level int, after func()) {
		h := &then{func() {
			if level+1 < depth {
				in := make(chan bool, 9)
				start(level+1, func() { in <- true })
				<-in
			}
			after()
		}}
		switch kinds[level] {
		case 0:
			keyhelper.GenerateIdentityKeyPairAsync(h)
		case 1:
			ecc.CalculateSignatureAsync(ecc.NewDjbECPrivateKey(kp.Priv), nil, h)
		case 2:
			ecc.VerifySignatureAsync(ecc.NewDjbECPublicKey(kp.Pub), nil, s, h)
		case 3:
			ecc.VerifySignatureAsync(ecc.NewDjbECPublicKey(kp.Pub), []byte{1}, s, h)
		}
	}
	start(0, func() { done <- true })
	select {
	case <-done:
		c.Count("nested", 1)
	case <-time.After(25 * time.Second):
		c.Fail("nested-never-completed", "an operation whose handler waits for another (kinds %v) did not complete", kinds)
	}
	c.Sig("nested", kinds)
}

// then is a handler that does something, whatever the outcome.
type then struct{ f func() }

func (t *then) OnSuccess(*complete.Result) { t.f() }
func (t *then) OnFailure(string)           { t.f() }

func runP29(c *rt.Case) {
	r := c.R
	if c.Idx%10 == 7 {
		nested(c)
	}
	if r.Intn(20) == 0 {
		inTurn(c)
		return
	}
	type job struct {
		kind int
		want bool
		o    *outcome
		pub  [32]byte
		msg  []byte
	}
	n := 8 + r.Intn(60)
	var slow time.Duration
	if r.Intn(20) == 0 { // many at a time, with handlers that take long
		n = 300
		slow = time.Duration(100+r.Intn(900)) * time.Millisecond
		c.Count("slow_handlers", int64(n))
	}
	jobs := make([]*job, n)
	failing := r.Intn(3) == 0
	one := -1
	if r.Intn(3) == 0 || slow > 0 && r.Intn(3) > 0 { // of one kind
		one = r.Intn(3)
	}
	for i := range jobs {
		j := &job{kind: r.Intn(3), o: &outcome{slow: slow}, want: true, msg: randBytes(c, r.Intn(200))}
		if one >= 0 {
			j.kind = one
		}
		if failing {
			j.kind = 0
		}
		jobs[i] = j
	}
	starts := make([]func(), n) // made first, so that many run at a time
	c.Par(4, func(g int, c *rt.Case) {
		for i := g; i < n; i += 4 {
			j := jobs[i]
			var rnd [64]byte
			switch j.kind {
			case 0:
				starts[i] = func() { keyhelper.GenerateIdentityKeyPairAsync(j.o) }
			case 1:
				kp := newRefKey(c)
				j.pub = kp.Pub
				starts[i] = func() { ecc.CalculateSignatureAsync(ecc.NewDjbECPrivateKey(kp.Priv), j.msg, j.o) }
			case 2:
				kp := newRefKey(c)
				j.pub = kp.Pub
				c.R.Read(rnd[:])
				var s [64]byte
				copy(s[:], ref.Sign(kp.Priv, j.msg, rnd))
				switch c.R.Intn(8) {
				case 0, 1, 2:
					s[c.R.Intn(64)] ^= 1 << c.R.Intn(8)
				case 3: // one byte throughout: an unset signature, and its like
					b := []byte{0, 0, 0xff, byte(c.R.Intn(256))}[c.R.Intn(4)]
					for k := range s {
						s[k] = b
					}
				}
				j.want = ref.Verify(j.pub, j.msg, s[:])
				starts[i] = func() { ecc.VerifySignatureAsync(ecc.NewDjbECPublicKey(j.pub), j.msg, s, j.o) }
			}
		}
	})
	base := runtime.NumGoroutine()
	if failing {
		c.Rand.FailIn(1 + r.Intn(n))
	}
	c.Par(4, func(g int, c *rt.Case) {
		for i := g; i < n; i += 4 {
			starts[i]()
		}
	})
	settle(c, base, slow, func() (bool, int) {
		all, total := true, 0
		for _, j := range jobs {
			j.o.mu.Lock()
			k := len(j.o.ok) + len(j.o.fail)
			j.o.mu.Unlock()
			all = all && k > 0
			total += k
		}
		return all, total
	})
	refused := c.Rand.Failed()
	c.Rand.FailIn(0)
	failedKeys := 0
	seen := map[[32]byte]bool{}
	for i, j := range jobs {
		op := [...]string{"generate", "sign", "verify"}[j.kind]
		j.o.mu.Lock()
		ok, fail := j.o.ok, j.o.fail
		j.o.mu.Unlock()
		for k, res := range j.o.res {
			c.Must(res.Data == ok[k], "result-changed:"+op, "the result handed over for job %d (%s) changed afterwards", i, op)
		}
		c.Must(len(ok)+len(fail) == 1, "calls:"+op, "job %d (%s): %d successes and %d failures reported", i, op, len(ok), len(fail))
		c.Count("completions", 1)
		if len(fail) == 1 {
			c.Count("failures", 1)
			c.Must(fail[0] != "", "empty-failure", "a failure without a reason")
		}
		switch j.kind {
		case 0:
			if len(fail) == 1 {
				failedKeys++
				break
			}
			kp, is := ok[0].(*identity.KeyPair)
			c.Must(is && kp != nil, "generate-type", "the result is %T", ok[0])
			c.Must(ref.NewKeyPair(kp.PrivateKey().Serialize()).Pub == kp.PublicKey().PublicKey().PublicKey(), "generate-mismatch", "the public key does not belong to the private key")
			c.Must(!seen[kp.PrivateKey().Serialize()], "generate-repeats", "two generations gave the same key")
			seen[kp.PrivateKey().Serialize()] = true
			c.Count("keys", 1)
		case 1:
			c.Must(len(ok) == 1, "sign-failed", "signing failed: %v", fail)
			s, is := ok[0].([64]byte)
			c.Must(is && ref.Verify(j.pub, j.msg, s[:]), "sign-invalid", "the asynchronous signature (%T) does not verify", ok[0])
			c.Count("signatures", 1)
		case 2:
			c.Must((len(ok) == 1) == j.want, "verify-wrong", "a signature with verdict %v was reported as %v %v", j.want, ok, fail)
			if j.want {
				c.Must(ok[0] == true, "verify-value", "success reported %v", ok[0])
			}
			c.Count("verifications", 1)
		}
		c.Sig(op, j.want, len(fail), class(uint32(n)), failing)
	}
	if failing {
		c.Must(refused == (failedKeys == 1) && failedKeys <= 1, "entropy-failure", "an entropy failure (%v) made %d generations fail", refused, failedKeys)
		if refused {
			c.Count("entropy_failures", 1)
		}
	} else {
		c.Must(failedKeys == 0, "generate-failed", "a key generation failed without reason")
	}
}
