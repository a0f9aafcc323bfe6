// dir: scouterx/netio
package netio

import (
	"fmt"
	"testing"
)

// the agent's failure report fails itself
func TestVerifReport(t *testing.T) {
	old := ac
	ac = nil
	defer func() {
		ac = old
		if r := recover(); r != nil {
			fmt.Printf("FAILING-INPUT: SendPanic(\"verif\") while the agent's configuration is unusable: a panic reached the application: %v\n", r)
			t.Fail()
		}
	}()
	SendPanic("verif")
}
