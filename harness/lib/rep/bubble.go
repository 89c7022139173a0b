package rep

import (
	"fmt"
	"strings"
	"testing"
	"testing/synctest"
)

// Bubble runs a function in virtual time. Goroutines that are left behind, asleep for example, do no harm: nobody has
// promised that there are none.
func Bubble(t *testing.T, f func(*testing.T)) {
	defer func() {
		if p := recover(); p != nil {
			if strings.Contains(fmt.Sprint(p), "main bubble goroutine has exited but blocked goroutines remain") {
				return
			}
			panic(p)
		}
	}()
	synctest.Test(t, f)
}
