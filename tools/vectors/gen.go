// Vectors of ML-DSA and ML-KEM made with the Go standard library (go1.27 run gen.go > p14.json).
package main

import (
	"crypto/mldsa"
	"crypto/mlkem"
	"crypto/mlkem/mlkemtest"
	"crypto/sha3"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
)

func stream(label string, n int) []byte {
	h := sha3.NewSHAKE256()
	h.Write([]byte(label))
	b := make([]byte, n)
	h.Read(b)
	return b
}

func main() {
	var out []map[string]string
	for name, p := range map[string]mldsa.Parameters{"ml-dsa-44": mldsa.MLDSA44(), "ml-dsa-65": mldsa.MLDSA65(), "ml-dsa-87": mldsa.MLDSA87()} {
		for i, c := range [][2]int{{0, 0}, {1, 0}, {33, 1}, {100, 255}, {1000, 128}, {5000, 254}, {0, 255}, {64, 16}, {137, 3}, {136, 200}} {
			seed := stream(fmt.Sprint(name, "seed", i), 32)
			msg := stream(fmt.Sprint(name, "msg", i), c[0])
			ctx := stream(fmt.Sprint(name, "ctx", i), c[1])
			sk, err := mldsa.NewPrivateKey(p, seed)
			if err != nil {
				panic(err)
			}
			opt := &mldsa.Options{Context: string(ctx)}
			det, err := sk.SignDeterministic(msg, opt)
			if err != nil {
				panic(err)
			}
			rnd, err := sk.Sign(nil, msg, opt)
			if err != nil {
				panic(err)
			}
			out = append(out, map[string]string{"alg": name, "seed": hex.EncodeToString(seed), "msg": hex.EncodeToString(msg),
				"ctx": hex.EncodeToString(ctx), "pk": hex.EncodeToString(sk.PublicKey().Bytes()), "det": hex.EncodeToString(det), "rnd": hex.EncodeToString(rnd)})
		}
	}
	for i := 0; i < 6; i++ {
		seed := stream(fmt.Sprint("kem seed", i), 64)
		m := stream(fmt.Sprint("kem m", i), 32)
		d7, _ := mlkem.NewDecapsulationKey768(seed)
		ss, ct, _ := mlkemtest.Encapsulate768(d7.EncapsulationKey(), m)
		junk := stream(fmt.Sprint("kem junk", i), 1088)
		rej, _ := d7.Decapsulate(junk)
		out = append(out, map[string]string{"alg": "ml-kem-768", "seed": hex.EncodeToString(seed), "m": hex.EncodeToString(m), "ek": hex.EncodeToString(d7.EncapsulationKey().Bytes()),
			"ct": hex.EncodeToString(ct), "ss": hex.EncodeToString(ss), "junk": hex.EncodeToString(junk), "rej": hex.EncodeToString(rej)})
		d1, _ := mlkem.NewDecapsulationKey1024(seed)
		ss, ct, _ = mlkemtest.Encapsulate1024(d1.EncapsulationKey(), m)
		junk = stream(fmt.Sprint("kem junk", i), 1568)
		rej, _ = d1.Decapsulate(junk)
		out = append(out, map[string]string{"alg": "ml-kem-1024", "seed": hex.EncodeToString(seed), "m": hex.EncodeToString(m), "ek": hex.EncodeToString(d1.EncapsulationKey().Bytes()),
			"ct": hex.EncodeToString(ct), "ss": hex.EncodeToString(ss), "junk": hex.EncodeToString(junk), "rej": hex.EncodeToString(rej)})
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
