N="internal/nonce/nonce.go"
def go(imports, body):
    return "package nonce\n\nimport (\n" + "".join('\t"%s"\n' % i for i in imports.split()) + ")\n\n" + body

seed("nonce-bits-run-out", "C29", [(N, "	charIdxMax  = 63 / charIdxBits   // # of char indices fitting in 63 bits.", "	charIdxMax  = 63 / 5             // # of char indices fitting in 63 bits.")], "internal/nonce", go("testing", '''func TestDemo(t *testing.T) {
	// Each character should occur about equally often.
	n := map[byte]int{}
	for i := 0; i < 20000; i++ {
		s := Generate(16)
		for k := range s {
			n[s[k]]++
		}
	}
	for c, k := range n {
		if k > 20000*16/62*2 {
			t.Fatalf("%c occurs %d times", c, k)
		}
	}
}
'''), "Nonces long enough to use all the bits drawn at once.", "Every eleventh character is predictable.")

seed("nonce-narrow-source", "C29", [(N, '''			cache, remain = rand.Int63(), charIdxMax
''', '''			cache, remain = int64(rand.Int31()), charIdxMax
''')], "internal/nonce", go("strings testing", '''func TestDemo(t *testing.T) {
	for i := 0; i < 1000; i++ {
		if s := Generate(22); strings.Contains(s, "AAAA") {
			t.Fatal(s)
		}
	}
}
'''), "Nonces that need more random bits than are drawn at first.", "The tail of a nonce is constant.")
