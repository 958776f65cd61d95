package c45

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

const rule = "directory trees up to forty-six deep or forty wide with module files, other files, symbolic links, vendor and .git directories at any level and names close to them, directories that cannot be entered or listed by an unprivileged user, the Go tool replaced by a recorder that fails in drawn directories; the invocations are compared with the directories; " +
	"non-trivial: at least three directories and a skipped one or a failing invocation"

var (
	asUser bool   // this process may start others as an unprivileged user
	tools  string // directory with the commands and the recorder
)

// recorder appends its working directory and arguments to $VERIF_C45_LOG and
// fails where a file named fail-here lies.
const recorder = `#!/bin/sh
{
  pwd -P
  echo "$#"
  for a in "$@"; do echo "$a"; done
} > "$VERIF_C45_LOG/$$.tmp"
cat "$VERIF_C45_LOG/$$.tmp" >> "$VERIF_C45_LOG/log"
rm "$VERIF_C45_LOG/$$.tmp"
if [ -e fail-here ]; then
  echo "failing" >&2
  case $(cat fail-here) in
  kill) kill -9 $$ ;;
  esac
  exit 3
fi
exit 0
`

func setup() {
	dir, err := os.MkdirTemp("", "c45")
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	for _, n := range []string{"autotidy", "autoupdate"} {
		cmd := exec.Command("go", "build", "-C", "/repo", "-buildvcs=false", "-o", filepath.Join(dir, n), "./cmd/"+n)
		if out, err := cmd.CombinedOutput(); err != nil {
			panic(fmt.Sprintf("HARNESS-ERROR building %s: %v %s", n, err, out))
		}
	}
	if err := os.Mkdir(filepath.Join(dir, "bin"), 0o755); err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	if err := os.WriteFile(filepath.Join(dir, "bin", "go"), []byte(recorder), 0o755); err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	for _, d := range []string{dir, filepath.Join(dir, "bin")} {
		if err := os.Chmod(d, 0o755); err != nil {
			panic("HARNESS-ERROR " + err.Error())
		}
	}
	tools = dir
	probe := exec.Command(filepath.Join(dir, "bin", "go"))
	probe.Env = []string{"PATH=/usr/bin:/bin", "VERIF_C45_LOG=/nonexistent"}
	probe.Dir = dir
	probe.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	asUser = probe.Run() == nil
}

func must(err error) {
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
}

type tree struct {
	visit   []string // directories to visit, relative to the root
	skipped int
	failing int
	links   int
	n, most int
	outside string // a directory elsewhere
	user    bool   // the command runs as an unprivileged user, and some directories are closed to it
	closed  int
	open    string // a directory open to everybody
}

var names = []string{"a", "b", "pkg", "cmd", "internal", "with space", "-n", "ü", "vendors", "Vendor", "_vendor", ".github", "git", ".gitx", "x.git", "go.mod.d", ".hidden", "..data", "$HOME", "a;b", "testdata",
	"node_modules", "third_party", "build", "dist", "bin", "target", "out", "tmp", "src", "test", "tests", "example", "examples", "docs", "_", "_x", "x_test", ".svn", ".hg", ".idea", ".cache", "Godeps", "mod", "cache", "VENDOR", ".GIT", ".git~", "vendor ", "vendor.bak", "go", "*", "[a]", "\\", "'", "new\u00a0"}

// dirName draws the name of a directory, mostly one that something may treat
// specially.
func dirName(rt *rapid.T) string {
	if rapid.IntRange(0, 7).Draw(rt, "plain") == 0 {
		if n := rapid.StringMatching(`[a-zA-Z0-9_+ -][a-zA-Z0-9._+ -]{0,60}`).Draw(rt, "name"); n != "vendor" {
			return n
		}
	}
	return rapid.SampledFrom(names).Draw(rt, "name")
}

// access tells what the user may do with a directory, besides finding it.
type access struct{ enter, list bool }

// grow fills a directory; inside one that is skipped or that cannot be
// reached, nothing is visited.
func grow(rt *rapid.T, root, rel string, depth int, inside bool, above bool, t *tree) {
	dir := filepath.Join(root, rel)
	can := access{true, true}
	if t.user && rel != t.open && rapid.IntRange(0, 4).Draw(rt, "closed") == 0 {
		can = access{rapid.Bool().Draw(rt, "enter"), rapid.Bool().Draw(rt, "list")}
		mode := fs.FileMode(0o700)
		if can.enter {
			mode |= 0o11
		}
		if can.list {
			mode |= 0o44
		}
		defer func() { must(os.Chmod(dir, mode)) }()
		if !can.enter || !can.list {
			t.closed++
		}
	}
	can.enter = can.enter && above
	if !inside && can.enter {
		t.visit = append(t.visit, rel)
		switch rapid.IntRange(0, 5).Draw(rt, "fails") {
		case 0:
			must(os.WriteFile(filepath.Join(dir, "fail-here"), nil, 0o644))
			t.failing++
		case 1:
			if rapid.Bool().Draw(rt, "killed") {
				must(os.WriteFile(filepath.Join(dir, "fail-here"), []byte("kill"), 0o644))
				t.failing++
			}
		}
	}
	for _, f := range []string{"go.mod", "main.go", "vendor", ".git", "go.sum"} {
		if rapid.IntRange(0, 3).Draw(rt, "file") == 0 {
			must(os.WriteFile(filepath.Join(dir, f), []byte("module "+f+"\n"), 0o644))
		}
	}
	if rapid.IntRange(0, 9).Draw(rt, "link") == 0 { // not a directory, wherever it leads
		to := rapid.SampledFrom([]string{".", "..", "../..", "a", "/nowhere", t.outside}).Draw(rt, "to")
		must(os.Symlink(to, filepath.Join(dir, "link")))
		t.links++
	}
	if depth == 0 {
		return
	}
	for range rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3}).Draw(rt, "dirs") {
		if t.n++; t.n > t.most {
			return
		}
		n := dirName(rt)
		if rapid.IntRange(0, 3).Draw(rt, "special") == 0 {
			n = rapid.SampledFrom([]string{"vendor", ".git"}).Draw(rt, "which")
		}
		skip := n == "vendor" || n == ".git"
		if err := os.Mkdir(filepath.Join(dir, n), 0o755); err != nil {
			continue // taken
		}
		if skip && !inside {
			t.skipped++
		}
		grow(rt, root, filepath.Join(rel, n), depth-1, inside || skip || !can.list, can.enter, t)
	}
}

// snapshot describes everything below root.
func snapshot(root string) string {
	var b strings.Builder
	must(filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		i, err := d.Info()
		if err != nil {
			return err
		}
		r, _ := filepath.Rel(root, p)
		fmt.Fprintf(&b, "%s %v", r, i.Mode())
		if i.Mode().IsRegular() {
			data, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			fmt.Fprintf(&b, " %d %x %d", i.Size(), sha256.Sum256(data), i.ModTime().UnixNano())
		}
		b.WriteByte('\n')
		return nil
	}))
	return b.String()
}

func TestCommands(t *testing.T) {
	setup()
	defer os.RemoveAll(tools)
	pbt.Check(t, pbt.Opts{Quick: 400, Thorough: 10000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) { command(rt, c, 0) })
}

// A directory with thousands of others in it.
func TestWide(t *testing.T) {
	setup()
	defer os.RemoveAll(tools)
	pbt.Check(t, pbt.Opts{Quick: 8, Thorough: 100, Rule: "trees as before with 300 to 5000 directories in one of the directories; non-trivial as before"}, func(rt *rapid.T, c *pbt.Case) {
		command(rt, c, pbt.Pick(3000, 5000))
	})
}

// command runs one of the commands; most is the largest number of
// directories in one, if there shall be very many.
func command(rt *rapid.T, c *pbt.Case, most int) {
	scratch, err := os.MkdirTemp("", "c45tree")
	must(err)
	defer os.RemoveAll(scratch)
	scratch, err = filepath.EvalSymlinks(scratch)
	must(err)
	above := filepath.Join(scratch, "above")
	root := filepath.Join(above, "root")
	logs := filepath.Join(scratch, "logs")
	must(os.MkdirAll(root, 0o755))
	must(os.Mkdir(logs, 0o755))
	must(os.Mkdir(filepath.Join(scratch, "sibling"), 0o755)) // nobody has to look here
	tr := &tree{most: 25, outside: filepath.Join(scratch, "sibling")}
	tr.user = asUser && rapid.IntRange(0, 3).Draw(rt, "user") == 0
	for _, d := range []string{scratch, root} {
		must(os.Chmod(d, 0o755))
	}
	must(os.Chmod(logs, 0o777))
	if tr.user && rapid.IntRange(0, 3).Draw(rt, "above") == 0 { // the place is known only as "here"
		must(os.Chmod(above, 0o700))
		c.Label("unreachable from outside")
	}
	top := "."
	if rapid.IntRange(0, 4).Draw(rt, "deep") == 0 { // a chain of directories above the rest
		tr.visit = append(tr.visit, top)
		for range rapid.IntRange(1, 40).Draw(rt, "chain") {
			top = filepath.Join(top, dirName(rt))
			tr.visit = append(tr.visit, top)
		}
		must(os.MkdirAll(filepath.Join(root, top), 0o755))
		tr.visit = tr.visit[:len(tr.visit)-1] // grow adds it
		c.Label("deep")
	}
	if rapid.IntRange(0, 9).Draw(rt, "wide") == 0 {
		tr.most = 100
		tr.open = top
		wide := rapid.IntRange(10, 40).Draw(rt, "width")
		for i := range wide {
			n := filepath.Join(top, fmt.Sprintf("mod%d", i))
			must(os.MkdirAll(filepath.Join(root, n), 0o755))
			tr.visit = append(tr.visit, n)
		}
		c.Label("wide")
	}
	if most > 0 {
		wide := gen.Large(rt, "siblings", 300, most)
		tr.open = top
		for i := range wide {
			n := filepath.Join(top, fmt.Sprintf("d%d", i))
			must(os.MkdirAll(filepath.Join(root, n), 0o755))
			tr.visit = append(tr.visit, n)
		}
		c.Label("very wide")
	}
	grow(rt, root, top, rapid.IntRange(0, 5).Draw(rt, "depth"), false, true, tr)
	name, args := "autotidy", "mod tidy"
	if rapid.Bool().Draw(rt, "update") {
		name, args = "autoupdate", "get -u"
	}
	c.Logf("%s in %q, %d skipped, %d failing", name, tr.visit, tr.skipped, tr.failing)
	c.NonTrivialIf(len(tr.visit) >= 3 && tr.skipped+tr.failing > 0)
	c.LabelIf(tr.skipped > 0, "skipped directories")
	c.LabelIf(tr.failing > 0, "failing invocations")
	c.LabelIf(tr.links > 0, "symbolic links")
	c.LabelIf(tr.user, "unprivileged")
	c.LabelIf(tr.closed > 0, "closed directories")
	before := snapshot(root)
	cmd := exec.Command(filepath.Join(tools, name))
	cmd.Dir = root
	if tr.user {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	}
	cmd.Env = []string{"PATH=" + filepath.Join(tools, "bin") + ":/usr/bin:/bin", "HOME=" + scratch, "VERIF_C45_LOG=" + logs}
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if tr.user { // as found by somebody who may go there
		cmd.Dir = ""
		here, err := os.Getwd()
		must(err)
		must(os.Chdir(root))
		err = cmd.Start()
		must(os.Chdir(here))
		must(err)
	} else {
		must(cmd.Start())
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(300 * time.Second):
		cmd.Process.Kill()
		rt.Fatalf("%s does not end in a tree of %d directories", name, len(tr.visit))
	}
	if err != nil {
		rt.Fatalf("%s failed: %v\n%s", name, err, out.Bytes())
	}
	if after := snapshot(root); after != before {
		rt.Fatalf("%s changed the tree\nbefore:\n%s\nafter:\n%s", name, before, after)
	}
	data, err := os.ReadFile(filepath.Join(logs, "log"))
	if err != nil && !os.IsNotExist(err) {
		panic("HARNESS-ERROR " + err.Error())
	}
	lines := strings.Split(strings.TrimSuffix(string(data), "\n"), "\n")
	var got []string
	for i := 0; i+1 < len(lines); {
		n := 0
		fmt.Sscan(lines[i+1], &n)
		r, err := filepath.Rel(root, lines[i])
		if err != nil {
			r = lines[i]
		}
		if a := strings.Join(lines[i+2:i+2+n], " "); a != args || n != 2 {
			rt.Fatalf("%s invoked the Go tool with %q in %s, want %q", name, lines[i+2:i+2+n], r, args)
		}
		got = append(got, r)
		i += 2 + n
	}
	want := slices.Clone(tr.visit)
	slices.Sort(want)
	slices.Sort(got)
	if !slices.Equal(got, want) {
		rt.Fatalf("%s invoked the Go tool in %q, want %q", name, got, want)
	}
}
