package simtest

import (
	"encoding/json"
	"os"
	"testing"
)

// TestSim is the worker process of the driver.
func TestSim(t *testing.T) {
	js := os.Getenv("VERIFSIM_REQ")
	if js == "" {
		t.Skip("no request")
	}
	var req Request
	if err := json.Unmarshal([]byte(js), &req); err != nil {
		t.Fatal(err)
	}
	out := os.Stdout
	if f := os.Getenv("VERIFSIM_OUT"); f != "" {
		var err error
		if out, err = os.Create(f); err != nil {
			t.Fatal(err)
		}
		defer out.Close()
	}
	Serve(t, req, out)
}
