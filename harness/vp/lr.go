package vp

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// RealText is an arbitrary real in [-b,b] together with a text that parses to it.
func RealText(name string, b int64) (string, float64) {
	f := Real(name, b)
	return strconv.FormatFloat(f, 'g', -1, 64), f
}

// RunMain calls f with the given file in its working directory and its output recorded; it returns the last integer f printed.
func RunMain(file, content string, f func()) int {
	dir, err := ioutil.TempDir("", "vplr")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	if err := ioutil.WriteFile(filepath.Join(dir, file), []byte(content), 0o644); err != nil {
		panic(err)
	}
	out, err := os.Create(filepath.Join(dir, "vp-output"))
	if err != nil {
		panic(err)
	}
	wd, _ := os.Getwd()
	old := os.Stdout
	defer func() {
		os.Stdout = old
		os.Chdir(wd)
		out.Close()
	}()
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	os.Stdout = out
	f()
	data, _ := ioutil.ReadFile(filepath.Join(dir, "vp-output"))
	last := -1
	for _, w := range strings.Fields(string(data)) {
		if n, err := strconv.Atoi(w); err == nil {
			last = n
		}
	}
	return last
}

// IsZero tells whether f is the number zero whatever the variables are.
func IsZero(f float64) bool { return f == 0 }
