package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/performancecopilot/speed/v4"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------------ C21

// A CLine is one line of a configuration file.
type CLine struct {
	K string `json:"k"` // set other comment blank text long
	V QStr   `json:"v,omitempty"`
	L string `json:"l,omitempty"` // set: white space before the key
}

type CaseC21 struct {
	Lines  []CLine `json:"lines"`
	NoEOL  bool    `json:"noeol,omitempty"` // last line without line end
	CRLF   bool    `json:"crlf,omitempty"`
	Dir    string  `json:"dir"`  // PCP_DIR: "unset", "empty", or a path below the scratch root
	Conf   string  `json:"conf"` // PCP_CONF: "unset", "empty", "file", "missing", "dir"
	Name   QStr    `json:"name"`
	Erase  bool    `json:"erase,omitempty"`
	Decoys bool    `json:"decoys,omitempty"` // files around the expected place, and one in it
	Link   int     `json:"link,omitempty"`   // a symbolic link at the expected place: 1 to a file, 2 to nothing yet, 3 to a directory
}

const keyTmp = "PCP_TMP_DIR"

func genC21(t *rapid.T) CaseC21 {
	x := CaseC21{
		Dir:    pick(t, "dir", "root", "root", "root/sub dir", "unset", "rel", "empty"),
		Conf:   pick(t, "conf", "unset", "unset", "file", "file", "missing", "dir", "empty"),
		Erase:  chance(t, "erase", 2),
		Decoys: chance(t, "decoys", 2),
	}
	n := rapid.IntRange(0, 6).Draw(t, "nlines")
	val := func() QStr {
		if chance(t, "odd", 3) {
			// characters that mean something to somebody, but not here
			s := QStr("/")
			for i := rapid.IntRange(1, 3).Draw(t, "nodd"); i > 0; i-- {
				s += pick(t, "oddc", QStr("$HOME"), "${PCP_DIR}", "$PCP_CONF", "~", "%41", "%s", "\\n", "\\", "'q'", "`id`", "$(id)", "*", "?", "[a]", "{a,b}", ";", "&", "|", "<x>", "!", "@", "^", ":", ",", "\v", "\u00a0", "/", "..x", "x..", "...", "A", "PCP_TMP_DIR=")
			}
			return s + "z"
		}
		return pick(t, "val", QStr("/var/tmp"), "/var/lib/pcp/tmp", "tmp", "/a//b/", "/a/../b", "", "/with space", "/a=b", "/#x", "/ünï", "\"/quoted\"", "/t\xff", "/.", "/x # y", "/x y ", "/tab\t", "/x\v", "/cr\rcr", "/x\u00a0", " ", " /lead", "\t")
	}
	for i := 0; i < n; i++ {
		l := CLine{K: pick(t, "k", "set", "set", "other", "comment", "comment", "blank", "text")}
		if chance(t, "longline", 25) {
			l.K = "long"
		}
		switch l.K {
		case "set":
			l.V = val()
			if chance(t, "lead", 4) {
				l.L = pick(t, "leading", " ", "    ", "\t", "\t  ", "\f")
			}
		case "other":
			l.V = pick(t, "okey", QStr("PCP_VAR_DIR="), "PCP_TMP_DIR_X=", "MY_PCP_TMP_DIR=", "PCP_TMP=", "PCPTMPDIR=", "PCP_TMP_DIRS=", "X_PCP_TMP_DIR_Y=", "PCP_RUN_DIR=PCP_TMP_DIR=", "TMPDIR=", "0=", "pcp_tmp_dir=", "Pcp_Tmp_Dir=", "PCP-TMP-DIR=", "PCP_TMP_DIR =", "PCP_TMP_DIR:=", "PCP_TMP_DIR+=", "PCP_TMP_DIR.X=", "_PCP_TMP_DIR=") + val()
		case "comment":
			l.V = pick(t, "ctext", QStr("# "), "#", "## ", "# old: ", "#\t", "# export ") + pick(t, "ckey", QStr(keyTmp+"="), keyTmp+" = ", "PCP_ETC_DIR=", "") + val()
		case "text":
			l.V = pick(t, "text", QStr("just words"), "[section]", "=", "====", "pcp tmp dir", keyTmp, keyTmp+" ")
		}
		x.Lines = append(x.Lines, l)
	}
	x.NoEOL = chance(t, "noeol", 3)
	x.CRLF = chance(t, "crlf", 6)
	if chance(t, "badname", 3) {
		x.Name = pick(t, "bad", QStr(""), ".", "..", "/", "a/b", "../decoy", "../../decoy", "decoys/inner", "./x", "x/", "/x", "..//x", "../mmv/x", "a/../b", "../mmv", "../../mmv/decoy")
	} else {
		if chance(t, "link", 5) {
			x.Link = rapid.IntRange(1, 3).Draw(t, "linkto")
		}
		x.Name = pick(t, "name", QStr("plain"), "a.b", " plain", "plain ", "pl ain\t", "\nplain", "plain.", "Plain", "plain.mmv", "plain~", "a..b", "a:b", "plain;x", " ", "\u00a0plain", ". ", ".. ", " ..", "...", "..a", ".hidden", "with space", "back\\slash", "ünïcode", "-", "~", "*", "a\nb", "\xff\xfe", "decoy", "mmv", "$HOME", "%2e%2e", "..\\..", QStr(strings.Repeat("n", 200)))
	}
	return x
}

func init() {
	register(Prop{ID: "C21",
		Rule:   "case: a generated pcp.conf, environment and client name given to a fresh unprivileged process that starts and stops a client; the scratch tree is compared before, in between and after with the place an independent reading of the configuration gives. Non-trivial: the configuration decides the place, or the name is not a plain file name",
		Assume: []string{"the process runs as nobody, so that a misplaced file cannot touch anything real; what it could write outside the scratch tree (world-writable directories) is not watched, except that the expected file must be there and complete"},
		Quick:  Budget{Cases: 2000}, Deep: Budget{Cases: 30000},
	}, genC21, runC21)
	subcommands["locate"] = locateMain
}

type locReply struct {
	Stage string
	Err   string
}

// locateMain: one client of the given name, reporting each stage and waiting for the parent.
func locateMain(a []string) {
	var name QStr
	if err := json.Unmarshal([]byte(os.Getenv("VH_NAME")), &name); err != nil {
		os.Exit(3)
	}
	in := bufio.NewReader(os.Stdin)
	say := func(stage string, err error) {
		r := locReply{Stage: stage}
		if err != nil {
			r.Err = err.Error()
		}
		b, _ := json.Marshal(r)
		fmt.Println(string(b))
		_, _ = in.ReadString('\n')
	}
	speed.EraseFileOnStop = os.Getenv("VH_ERASE") != ""
	cl, err := speed.NewPCPClient(string(name))
	say("new", err)
	if err != nil {
		return
	}
	m, err := speed.NewPCPCounter(42, "a.counter")
	if err == nil {
		err = cl.Register(m)
	}
	if err != nil {
		os.Exit(3)
	}
	err = cl.Start()
	say("start", err)
	if err != nil {
		return
	}
	err = cl.Stop()
	say("stop", err)
}

// tree lists everything below a directory, with content.
func tree(root string) map[string]string {
	r := map[string]string{}
	_ = filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		switch {
		case i.IsDir():
			r[p] = "directory"
		case i.Mode().IsRegular():
			b, _ := os.ReadFile(p)
			r[p] = "file " + string(b)
		default:
			r[p] = i.Mode().String()
		}
		return nil
	})
	return r
}

func treeDiff(a, b map[string]string) (d []string) {
	for p, x := range a {
		if y, ok := b[p]; !ok {
			d = append(d, "removed "+p)
		} else if x != y {
			d = append(d, "changed "+p)
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			d = append(d, "created "+p)
		}
	}
	sort.Strings(d)
	return
}

func plainName(n string) bool {
	return n != "" && n != "." && n != ".." && !strings.Contains(n, "/")
}

func runC21(c *Ctx, x CaseC21) {
	for d := c.Dir; strings.HasPrefix(d, os.TempDir()) || strings.HasPrefix(d, "/tmp/"); d = filepath.Dir(d) {
		_ = os.Chmod(d, 0755)
		if filepath.Dir(d) == "/tmp" || d == "/" {
			break
		}
	}
	bin := os.Getenv("VH_BIN")
	_ = os.Chmod(filepath.Dir(bin), 0755)
	base := filepath.Join(c.Dir, fmt.Sprintf("c21-%d", c.N))
	defer os.RemoveAll(base)
	tmp := filepath.Join(base, "systmp")
	confDir := filepath.Join(base, "conf")
	for _, d := range []string{tmp, confDir, filepath.Join(base, "etc"), filepath.Join(base, "cwd")} {
		if err := os.MkdirAll(d, 0755); err != nil {
			c.Infraf("%v", err)
		}
	}
	env := []string{"TMPDIR=" + tmp, "PATH=/usr/bin:/bin", "HOME=" + base}
	root, prefix := "/", ""
	switch x.Dir {
	case "unset":
		prefix = base // keeps what the configuration names inside the scratch tree
	case "empty":
		env = append(env, "PCP_DIR=")
		root, prefix = "", base
	case "rel":
		env = append(env, "PCP_DIR=relroot")
		root = filepath.Join(base, "cwd", "relroot")
	default:
		root = filepath.Join(base, x.Dir)
		env = append(env, "PCP_DIR="+root)
	}
	// the text, and an independent reading of it
	var text strings.Builder
	dir, found := "", false
	for i, l := range x.Lines {
		line := ""
		switch l.K {
		case "set":
			v := prefix + string(l.V)
			if prefix != "" && !strings.HasPrefix(string(l.V), "/") {
				v = prefix + "/" + string(l.V)
			}
			line = l.L + keyTmp + "=" + v
			dir, found = v, true
		case "long":
			line = "# " + strings.Repeat("-", 70000)
		default:
			line = string(l.V)
		}
		text.WriteString(line)
		if i < len(x.Lines)-1 || !x.NoEOL {
			if x.CRLF {
				text.WriteString("\r")
			}
			text.WriteString("\n")
		}
	}
	conf := filepath.Join(confDir, "my pcp.conf")
	write := func(p string) {
		if err := os.MkdirAll(filepath.Dir(p), 0755); err == nil {
			err = os.WriteFile(p, []byte(text.String()), 0644)
			if err != nil {
				c.Infraf("%v", err)
			}
		}
	}
	switch x.Conf {
	case "file":
		env = append(env, "PCP_CONF="+conf)
		write(conf)
	case "missing":
		env = append(env, "PCP_CONF="+conf)
		found = false
	case "dir":
		env = append(env, "PCP_CONF="+confDir)
		found = false
	case "empty":
		// no file has that name
		env = append(env, "PCP_CONF=")
		found = false
		if x.Dir != "unset" && x.Dir != "empty" {
			write(filepath.Join(root, "etc", "pcp.conf"))
		}
	default:
		if x.Dir == "empty" {
			write(filepath.Join(base, "cwd", "etc", "pcp.conf"))
		} else if x.Dir == "unset" {
			// that would be the configuration of the machine, if any
			env = append(env, "PCP_CONF="+conf)
			write(conf)
		} else {
			write(filepath.Join(root, "etc", "pcp.conf"))
		}
	}
	mmv := filepath.Join(tmp, "mmv")
	if found {
		mmv = filepath.Join(root, dir, "mmv")
		c.Label("configured")
		c.Nontrivial()
	}
	if !strings.HasPrefix(mmv, base+"/") {
		c.Infraf("expected place %s is not in the scratch tree", mmv)
	}
	name := string(x.Name)
	want := filepath.Join(mmv, name)
	if x.Decoys {
		for _, p := range []string{filepath.Join(mmv, "decoy"), filepath.Join(mmv, "decoys", "inner"), filepath.Join(mmv, "..", "decoy"), filepath.Join(mmv, "..", "..", "decoy"), filepath.Join(mmv, "..", "x"), want} {
			if !strings.HasPrefix(p, base+"/") {
				continue
			}
			if p == want && !plainName(name) {
				continue
			}
			_ = os.MkdirAll(filepath.Dir(p), 0755)
			_ = os.WriteFile(p, []byte("content of "+filepath.Base(p)), 0644)
		}
		_ = os.MkdirAll(filepath.Join(mmv, "..", "b"), 0755)
	}
	linked := filepath.Join(base, "linked")
	if x.Link > 0 && plainName(name) {
		c.Label("symbolic link in the place")
		_ = os.MkdirAll(mmv, 0755)
		_ = os.MkdirAll(filepath.Join(linked, "dir"), 0755)
		_ = os.WriteFile(filepath.Join(linked, "file"), []byte("content of the linked file"), 0644)
		_ = os.Remove(want)
		if err := os.Symlink(filepath.Join(linked, [3]string{"file", "nothing", "dir"}[x.Link-1]), want); err != nil {
			c.Infraf("%v", err)
		}
	}
	_ = filepath.Walk(base, func(p string, i os.FileInfo, err error) error {
		if err == nil {
			_ = os.Lchown(p, 65534, 65534)
		}
		return nil
	})

	qn, _ := json.Marshal(x.Name)
	env = append(env, "VH_NAME="+string(qn))
	if x.Erase {
		env = append(env, "VH_ERASE=1")
	}
	cmd := exec.Command(bin, "locate")
	cmd.Env, cmd.Dir = env, filepath.Join(base, "cwd")
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}, Pdeathsig: syscall.SIGKILL}
	var stderr strings.Builder
	cmd.Stderr = &stderr
	stdin, err := cmd.StdinPipe()
	if err != nil {
		c.Infraf("%v", err)
	}
	stdout, err := cmd.StdoutPipe()
	if err != nil {
		c.Infraf("%v", err)
	}
	if err := cmd.Start(); err != nil {
		c.Infraf("cannot run an unprivileged process: %v", err)
	}
	out := bufio.NewReader(stdout)
	waited := false
	finish := func() {
		if !waited {
			waited = true
			stdin.Close()
			_, _ = io.Copy(io.Discard, out)
			_ = cmd.Wait()
		}
	}
	defer finish()
	next := func(stage string) locReply {
		line, err := out.ReadBytes('\n')
		var r locReply
		if err != nil || json.Unmarshal(line, &r) != nil || r.Stage != stage {
			finish()
			st := stderr.String()
			if libRe.MatchString(st) && strings.Contains(st, "panic") {
				c.Failf("the process died at stage %s: %s", stage, clip(st, 3000))
			}
			c.Failf("a process using the library, at stage %s, said %q, stderr %q", stage, line, clip(st, 2000))
		}
		return r
	}
	goOn := func() { _, _ = stdin.Write([]byte("\n")) }

	t0 := tree(base)
	// the tree must not be changed by reading the configuration
	r := next("new")
	t1 := tree(base)
	if d := treeDiff(t0, t1); len(d) > 0 {
		c.Failf("constructing a client changed files: %v", d)
	}
	if !plainName(name) {
		c.Nontrivial()
		c.Label("bad name")
		if r.Err == "" {
			goOn()
			r = next("start")
			d := treeDiff(t0, tree(base))
			c.Failf("NewPCPClient accepted the name %q; starting it: error %q, files: %v", name, r.Err, d)
		}
		goOn()
		finish()
		if d := treeDiff(t0, tree(base)); len(d) > 0 {
			c.Failf("a refused name changed files: %v", d)
		}
		return
	}
	if r.Err != "" {
		c.Failf("NewPCPClient refused the plain file name %q: %s", name, r.Err)
	}
	goOn()
	r = next("start")
	if r.Err != "" && x.Link == 2 {
		// a link to nothing can be an obstacle, but nothing is written through it
		c.Label("link refused")
		goOn()
		finish()
		if d := treeDiff(t1, tree(base)); len(d) > 0 {
			c.Failf("Start with a link to nothing in its place failed (%s) and changed files: %v", r.Err, d)
		}
		return
	}
	if r.Err != "" {
		c.Failf("Start: %s; expected the file at %s", r.Err, want)
	}
	t2 := tree(base)
	got, ok := t2[want]
	if !ok || !strings.HasPrefix(got, "file ") {
		c.Failf("after Start there is no file at %s; changes: %v", want, treeDiff(t1, t2))
	}
	if im, err := parseImage([]byte(got[len("file "):])); err != nil || len(im.Metrics) != 1 || im.Metrics[0].Name != "a.counter" {
		c.Failf("the file at %s is not the image of the client: %v", want, err)
	}
	for _, d := range treeDiff(t1, t2) {
		p := d[strings.Index(d, " ")+1:]
		if p == want || strings.HasPrefix(d, "created ") && strings.HasPrefix(want, p+"/") {
			continue
		}
		c.Failf("Start also %s (expected only %s)", d, want)
	}
	goOn()
	r = next("stop")
	if r.Err != "" {
		c.Failf("Stop: %s", r.Err)
	}
	goOn()
	finish()
	t3 := tree(base)
	ds := treeDiff(t2, t3)
	switch {
	case x.Erase && (len(ds) != 1 || ds[0] != "removed "+want):
		c.Failf("Stop with erasing on: %v, expected only the removal of %s", ds, want)
	case !x.Erase && len(ds) != 0:
		c.Failf("Stop: %v", ds)
	}
}
