# Planted changes for the maintenance commands (C37).
AT = "cmd/autotidy/autotidy.go"; AU = "cmd/autoupdate/autoupdate.go"
DEMO_CMD = '''
package main

import (
	"io"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
)

// The go tool is replaced by a script that writes down where it is run.
func TestDemo(t *testing.T) {
	root, err := filepath.EvalSymlinks(t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	tree, bin := filepath.Join(root, "tree"), filepath.Join(root, "bin")
	for _, d := range []string{%s, "../bin"} {
		if err := os.MkdirAll(filepath.Join(tree, d), 0o777); err != nil {
			t.Fatal(err)
		}
	}
	%s
	script := "#!/bin/sh\\npwd -P >> '" + root + "/log'\\n"
	if err := os.WriteFile(filepath.Join(bin, "go"), []byte(script), 0o777); err != nil {
		t.Fatal(err)
	}
	t.Setenv("PATH", bin+":/usr/bin:/bin")
	wd, err := os.Getwd()
	if err != nil {
		t.Fatal(err)
	}
	defer os.Chdir(wd)
	if err := os.Chdir(tree); err != nil {
		t.Fatal(err)
	}
	log.SetOutput(io.Discard)
	main()
	b, _ := os.ReadFile(filepath.Join(root, "log"))
	var got []string
	for _, l := range strings.Fields(string(b)) {
		rel, _ := filepath.Rel(tree, l)
		got = append(got, rel)
	}
	sort.Strings(got)
	if s := strings.Join(got, " "); s != %s {
		t.Fatalf("the tool was run in %%q", s)
	}
}
'''
seed("C37-vendor-nested", "C37", [(AT, "				return filepath.SkipDir\n", "				return nil\n")], "cmd/autotidy",
 DEMO_CMD % ('"a", "vendor/x/y"', "", '". a"'),
 "a vendor directory that has directories of its own", "the tool is run in what is below vendor and .git directories: only these themselves are left out")
seed("C37-git-prefix", "C37", [(AU, 'd.Name() == ".git" {', 'strings.HasPrefix(d.Name(), ".git") {'), (AU, '	"path/filepath"\n', '	"path/filepath"\n	"strings"\n')], "cmd/autoupdate",
 DEMO_CMD % ('"a", ".github/tools", ".git/hooks"', "", '". .github .github/tools a"'),
 "a directory whose name only begins with .git", "directories like .github and everything below them are left out")
seed("C37-symlink", "C37", [(AT, "		if d.IsDir() {\n", "		// a directory may also be linked to\n		if d.IsDir() || d.Type()&fs.ModeSymlink != 0 {\n")], "cmd/autotidy",
 DEMO_CMD % ('"a", "../outside"', 'if err := os.Symlink("../outside", filepath.Join(tree, "l")); err != nil {\n		t.Fatal(err)\n	}', '". a"'),
 "a symbolic link in the tree that leads to a directory", "the tool is run in the directory the link leads to, outside the tree or a second time")
