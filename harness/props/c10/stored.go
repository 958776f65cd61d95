package c10

// stored holds one hash per algorithm number, made with a fixed salt.
var stored = []string{
	"ACEAAAAAAAAAQQAAAAAAAABzaXh0ZWVuIGJ5dGUgc2FsqnmZ87PNcH4S7SCEY6g-k-GLVeT3l9KpUg96hpVs_I8",
	"ASEAAAAAAAAAQQAAAAAAAABzaXh0ZWVuIGJ5dGUgc2FssAeZZq0umZIQmg2YyFDsrxKoxbYsv9NfRd1ENqcDxNs",
	"AiEAAAAAAAAAQQAAAAAAAABzaXh0ZWVuIGJ5dGUgc2Fs00JkuUo2V-u7ay-XdfPTRDn75RHUpN0PghXSaseBlqI",
	"AyEAAAAAAAAAQQAAAAAAAABzaXh0ZWVuIGJ5dGUgc2FsXyMErCovRfaXsChnKf4DZd82PPMB6e_ajbYzPiw4yXk",
}
