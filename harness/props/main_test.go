package props

import (
	"fmt"
	"os"
	"testing"
)

// TestMode is the only test: the driver selects what it does.
func TestMode(t *testing.T) {
	p := props[os.Getenv("PROPS_ID")]
	switch os.Getenv("PROPS_MODE") {
	case "worker":
		Worker(t, p)
	case "explore":
		Explore(p)
	case "replay":
		Replay(os.Getenv("PROPS_FILE"))
	case "list":
		for id := range props {
			fmt.Println(id)
		}
	}
}
