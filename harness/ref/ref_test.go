package ref

import "testing"

func TestSelf(t *testing.T) {
	if err := SelfTest(); err != nil {
		t.Fatal(err)
	}
}

func BenchmarkMul(b *testing.B) {
	x := B.X
	for i := 0; i < b.N; i++ {
		x = Mul(x, x)
	}
}
func BenchmarkPMul(b *testing.B) {
	for i := 0; i < b.N; i++ {
		PMul(LBig, B)
	}
}
func BenchmarkEnc(b *testing.B) {
	for i := 0; i < b.N; i++ {
		B.Encode()
	}
}
