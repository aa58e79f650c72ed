module verif

go 1.21

require (
	github.com/RadicalApp/complete v0.0.0-20170329192659-17e6c0ee499b
	github.com/prospik/libsignal-protocol-go v0.0.0
)

require (
	github.com/golang/protobuf v1.3.1 // indirect
	golang.org/x/crypto v0.0.0-20200820211705-5c72a883971a // indirect
)

replace github.com/prospik/libsignal-protocol-go => /repo
