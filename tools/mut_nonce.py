A=["C29"]
N="internal/nonce/nonce.go"; R="ratus.go"
def bug(n,*e): return (n,"bug",A,[(N,a,b) for a,b in e])
def same(n,*e): return (n,"same",A,[(N,a,b) for a,b in e])
S=open("/repo/"+N).read()
BODY=S[S.index("	var sb strings.Builder"):S.rindex("}")]
def body(b,imp=None):
    e=[(BODY,b)]
    if imp is not None:
        e.append((S[S.index("import ("):S.index("func init")],"import (\n"+"".join('\t"%s"\n'%i for i in imp.split())+")\n\n"))
    return e
SL='''	b := make([]byte, n)
	for i := range b {
		b[i] = alphanumericals[rand.Intn(len(alphanumericals))]
	}
	return string(b)
'''
MK='''	b := make([]byte, n)
	for i, cache, remain := n-1, rand.Int63(), charIdxMax; i >= 0; {
		if remain == 0 {
			cache, remain = rand.Int63(), charIdxMax
		}
		if idx := int(cache & charIdxMask); idx < len(alphanumericals) {
			b[i] = alphanumericals[idx]
			i--
		}
		cache >>= charIdxBits
		remain--
	}
	return string(b)
'''
I="math/rand time"
MUT=[
 bug("one too few",("i >= 0;","i > 0;")),
 bug("one too many",("i, cache, remain := n-1","i, cache, remain := n")),
 bug("rejected consumes",("			i--\n		}\n","		}\n		i--\n")),
 bug("no rejection",("idx < len(alphanumericals)","idx <= len(alphanumericals)")),
 bug("five bits",("charIdxBits = 6","charIdxBits = 5")),
 bug("mask wrong",("1<<charIdxBits - 1 //","1<<(charIdxBits-1) - 1 //")),
 bug("too many per draw",("63 / charIdxBits ","64 * 2 / charIdxBits ")),
 bug("shift too small",("cache >>= charIdxBits","cache >>= charIdxBits - 1")),
 bug("no shift",("		cache >>= charIdxBits\n","")),
 bug("no refresh",("			cache, remain = rand.Int63(), charIdxMax\n","			remain = charIdxMax\n")),
 bug("31 bits",("		if remain == 0 {\n			cache, remain = rand.Int63()","		if remain == 0 {\n			cache, remain = int64(rand.Int31())")),
 bug("charset with dash",("0123456789\"","0123456789-_\"")),
 bug("charset shorter",("ABCDEFGHIJKLMNOPQRSTUVWXYZabc","abcdefghijklmnopqrstuvwxyzabc")),
 bug("constant seed",("rand.Seed(time.Now().UnixNano())","rand.Seed(1)"),('	"time"\n','')),
 bug("short nonces",("",""),) if False else ("short nonces","bug",A,[(R,"const NonceLength = 16","const NonceLength = 8")]),
 ("longer nonces","same",A,[(R,"const NonceLength = 16","const NonceLength = 24")]),
 same("slice of bytes",*body(SL,I)),
 same("slice, cached bits",*body(MK,I)),
 bug("slice, last not set",*body(MK.replace("i >= 0;","i > 0;"),I)),
 bug("slice, first not set",*body(SL.replace("for i := range b {","for i := 1; i < n; i++ {"),I)),
 bug("slice, range short",*body(SL.replace("Intn(len(alphanumericals))","Intn(len(alphanumericals)-1)"),I)),
 bug("slice, drawn once",*body(SL.replace("	for i","	k := rand.Intn(len(alphanumericals))\n	for i").replace("[rand.Intn(len(alphanumericals))]","[k]"),I)),
 bug("not random",*body(SL.replace("rand.Intn(len(alphanumericals))","(int(time.Now().UnixNano())+i)&31"),I)),
 same("drawn per character",("		if idx := int(cache & charIdxMask)","		if idx := rand.Intn(len(alphanumericals))")),
 same("count up",("i, cache, remain := n-1, rand.Int63(), charIdxMax; i >= 0;","i, cache, remain := 0, rand.Int63(), charIdxMax; i < n;"),("			i--","			i++")),
 same("until long enough",("i, cache, remain := n-1, rand.Int63(), charIdxMax; i >= 0;","cache, remain := rand.Int63(), charIdxMax; sb.Len() < n;"),("			i--\n","")),
 same("without the init seed",("	rand.Seed(time.Now().UnixNano())\n","	_ = time.Now\n")),
 same("helper",*body('''	var sb strings.Builder
	sb.Grow(n)
	for sb.Len() < n {
		sb.WriteByte(pick())
	}
	return sb.String()
}

func pick() byte {
	return alphanumericals[rand.Intn(len(alphanumericals))]
''')),
 same("refresh first",("		if remain == 0 {\n			cache, remain = rand.Int63(), charIdxMax\n		}\n","		if remain < 1 {\n			cache = rand.Int63()\n			remain = charIdxMax\n		}\n")),
 same("rand v2",*body('''	b := make([]byte, n)
	for i := 0; i < len(b); i++ {
		b[i] = alphanumericals[rand.IntN(len(alphanumericals))]
	}
	return string(b)
''',"math/rand/v2"),("	rand.Seed(time.Now().UnixNano())\n","")),
 same("runes",*body('''	b := make([]rune, n)
	for i := range b {
		b[i] = rune(alphanumericals[rand.Intn(len(alphanumericals))])
	}
	return string(b)
''',I)),
 same("appending",*body('''	b := make([]byte, 0, n)
	for len(b) < n {
		b = append(b, alphanumericals[rand.Intn(len(alphanumericals))])
	}
	return string(b)
''',I)),
 same("crypto rand",*body('''	b := make([]byte, n)
	for i := range b {
		k, err := rand.Int(rand.Reader, big.NewInt(int64(len(alphanumericals))))
		if err != nil {
			panic(err)
		}
		b[i] = alphanumericals[k.Int64()]
	}
	return string(b)
''',"crypto/rand math/big"),("	rand.Seed(time.Now().UnixNano())\n","")),
 same("string concat",*body('''	s := ""
	for len(s) < n {
		s += string(alphanumericals[rand.Intn(len(alphanumericals))])
	}
	return s
''',I)),
]
