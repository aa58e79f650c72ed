package checks

// prefixPairs are private keys whose public keys agree in their first four bytes.
var prefixPairs = [][2]string{
	{"78490ff9055485b96d80ffccf9a7b8632f21dd445a6a81fb66c7caff938d8373", "d0a63836d12cdd649f596a74e43c4fafb7434fd48575f584c2571a00b5b9c84f"},
	{"f018bdcdd705a5685657734b6854d4ddd9898b75adfa21ace24008b51b0d3573", "88e78914c64530dc6f22f72101fe03e7c6f357d9e318e3f7c90eb1eef72e1361"},
	{"50b50baa813068b1d9c8bdb7f4f2b0a309ebd040a6b62702818d267a66fa8976", "a834929ea40271616a419c9bce463afb3590ccf2315f8050e9c4540fc4f87760"},
	{"a81daf4134b08b79d2162a6dd3d3f597e6c4f47519034a8a034d795039fbe956", "f067acfa05de43246a7bc5e31696b5ff90376adb4d1d33cd37814c32e4421f57"},
	{"5030b1cd650da8203742b7c13403b25dfd397f3761c24a7e3c7991d721d00846", "401353c58bae34a444b752c9cf7c3a37bea16ae60ec621001f007b88a4eec462"},
	{"b8947776eb62f585e2b281ac1ded90b41bfddd64226e545624249b156cfa586d", "b8400899056b3771a8da218b7d0f5fb60130b92292056876c72762bd24400d68"},
	{"6093f2a4ea5031ad7ac5b9199b54ecf07bf5e56a1fe8ee2bfb4b2b632680fd59", "08763d7785fc07709aa65c3d0ceb7cf95849ca10fdb0c7a35a5663373303727b"},
	{"80a7c6818f4941f635091ed9579781fb43d222fb1e6d80caf12d7164cf1d2a73", "10a8614a6e21c9132b8e50c30bbcafa86dd10ac4c38fe62aa97d178d5543c86c"},
	{"806aea96fdde49183b6b3a3c2735d0eacf884f488b8946e441842b000118c459", "7096d745c8c0ae6b9199f73ab65850bc837aed15a5b0ec105a65af28dbae3f4a"},
	{"70bb16850415df9fce8e661e6cc9f1f156eff671e89db217572f86175a50ff7d", "60bcc6a66352347e178a5294687172bb571d5a06d4659ebfe63b948518b7ca7e"},
	{"607a5de8d6942719740f0cf1f6f606800a4d72666046d2ea266f8703b9e43553", "60fbeeb01483b22390364f0013b3942f5705c4348d477f2706aea45492274073"},
	{"483fce280b46bdb22c7bfc95bd4d60003794524beb5fa3d161f43c4924f19c46", "e0a24b60c710bb46ca5645015ab19aee8da4809613a56f71c90948ca2ef1746b"},
}
