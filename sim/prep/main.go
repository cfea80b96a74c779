// prep writes everything a simulated build of /repo needs into one directory:
// instrumented copies of the module's packages, patched copies of a few Go
// runtime and library files, and the overlay.json that puts them in place.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

var (
	repo    = flag.String("repo", "/repo", "repository under test")
	sim     = flag.String("sim", "", "directory holding rt/ and harness/")
	out     = flag.String("out", "", "output directory")
	target  = flag.String("pkg", "./MAPL_engine", "package whose module-local closure is instrumented")
	level   = flag.Int("level", 2, "2: yields and split assignments, 1: yields only")
	modPath string
)

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "prep: "+f+"\n", a...)
	os.Exit(2)
}

// countedLibs are the third-party packages that parse payloads and paths.
var countedLibs = map[string]bool{
	"github.com/bhmj/jsonslice":       true,
	"github.com/bhmj/xpression":       true,
	"github.com/yalp/jsonpath":        true,
	"github.com/tidwall/pretty":       true,
	"gopkg.in/getlantern/deepcopy.v1": true,
}

type pkgInfo struct {
	Name       string
	Dir        string
	ImportPath string
	GoFiles    []string
	Standard   bool
}

func goList(args ...string) []byte {
	cmd := exec.Command("go", append([]string{"list"}, args...)...)
	cmd.Dir = *repo
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		fatal("go list %v: %v\n%s", args, err, eb.String())
	}
	return b
}

func main() {
	flag.Parse()
	if *sim == "" || *out == "" {
		fatal("need -sim and -out")
	}
	must(os.MkdirAll(*out, 0o755))
	modfile := "-modfile=" + filepath.Join(*out, "go.mod")
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(*repo, f))
		must(err)
		writeFile(filepath.Join(*out, f), b)
	}
	modPath = strings.TrimSpace(string(goList(modfile, "-m")))
	replace := map[string]string{}

	// 1. instrumented packages of the module
	dec := json.NewDecoder(bytes.NewReader(goList(modfile, "-deps", "-json=Name,Dir,ImportPath,GoFiles,Standard", *target)))
	var sites []Site
	libReplace := ""
	for dec.More() {
		var p pkgInfo
		must(dec.Decode(&p))
		if p.Standard {
			continue
		}
		if p.ImportPath != modPath && !strings.HasPrefix(p.ImportPath, modPath+"/") {
			if !countedLibs[p.ImportPath] {
				continue
			}
			// files in the module cache cannot be overlaid: copy the module
			// and point a replace directive of the copied go.mod at it
			dir := filepath.Join(*out, "lib", strings.ReplaceAll(p.ImportPath, "/", "_"))
			for _, f := range p.GoFiles {
				b, s, err := instrumentLib(filepath.Join(p.Dir, f), modPath+"/verifsim/rt", len(sites))
				if err != nil {
					fatal("instrument %s: %v", f, err)
				}
				sites = append(sites, s...)
				writeFile(filepath.Join(dir, f), b)
			}
			gm, err := os.ReadFile(filepath.Join(p.Dir, "go.mod"))
			if err != nil {
				gm = []byte("module " + p.ImportPath + "\n")
			}
			writeFile(filepath.Join(dir, "go.mod"), gm)
			libReplace += fmt.Sprintf("\nreplace %s => %s\n", p.ImportPath, dir)
			continue
		}
		globals := packageVars(p)
		var rs resets
		if *level >= 2 {
			rs = packageResets(p)
		}
		for _, f := range p.GoFiles {
			src := filepath.Join(p.Dir, f)
			b, s, err := instrument(src, modPath+"/verifsim/rt", globals, len(sites), *level, rs.rename[src])
			if err != nil {
				fatal("instrument %s: %v", src, err)
			}
			sites = append(sites, s...)
			dst := filepath.Join(*out, "pkg", strings.ReplaceAll(strings.TrimPrefix(p.ImportPath, modPath), "/", "_"), f)
			writeFile(dst, append(b, rs.tail[src]...))
			replace[src] = dst
		}
		if *level >= 2 {
			dst := filepath.Join(*out, "pkg", strings.ReplaceAll(strings.TrimPrefix(p.ImportPath, modPath), "/", "_"), "verif_reset_gen.go")
			writeFile(dst, []byte(rs.file(p.Name, modPath+"/verifsim/rt")))
			replace[filepath.Join(p.Dir, "verif_reset_gen.go")] = dst
		}
	}
	gm, err := os.ReadFile(filepath.Join(*out, "go.mod"))
	must(err)
	writeFile(filepath.Join(*out, "go.mod"), append(gm, libReplace...))
	if len(sites) == 0 {
		fatal("nothing was instrumented")
	}

	// 2. simulator packages, placed virtually inside the module
	for _, d := range []string{"rt", "harness"} {
		fs, err := filepath.Glob(filepath.Join(*sim, d, "*.go"))
		must(err)
		for _, f := range fs {
			replace[filepath.Join(*repo, "verifsim", d, filepath.Base(f))] = f
		}
	}
	var sb strings.Builder
	sb.WriteString("package rt\n\nfunc init() {\n\tSites = []SiteInfo{\n")
	for _, s := range sites {
		fmt.Fprintf(&sb, "\t\t{%q, %d, %v},\n", s.File, s.Line, s.Hot)
	}
	sb.WriteString("\t}\n}\n")
	st := filepath.Join(*out, "sites_gen.go")
	writeFile(st, []byte(sb.String()))
	replace[filepath.Join(*repo, "verifsim", "rt", "sites_gen.go")] = st

	// 3. patched standard library
	goroot := strings.TrimSpace(runGo("env", "GOROOT"))
	for _, p := range stdPatches() {
		src := filepath.Join(goroot, "src", p.file)
		var text string
		if p.newFile != "" {
			text = p.newFile
		} else {
			b, err := os.ReadFile(src)
			must(err)
			text = string(b)
			for _, e := range p.edits {
				if n := strings.Count(text, e.old); n != 1 {
					fatal("std patch %s: %d matches for %q", p.file, n, e.old)
				}
				text = strings.Replace(text, e.old, e.new, 1)
			}
		}
		dst := filepath.Join(*out, "std", strings.ReplaceAll(p.file, "/", "_"))
		writeFile(dst, []byte(text))
		replace[src] = dst
	}

	keys := make([]string, 0, len(replace))
	for k := range replace {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	ov, err := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	must(err)
	writeFile(filepath.Join(*out, "overlay.json"), ov)
	fmt.Printf("prep: %d files overlaid, %d yield sites\n", len(keys), len(sites))
}

func readText(path string) string {
	b, err := os.ReadFile(path)
	must(err)
	return string(b)
}

func runGo(args ...string) string {
	b, err := exec.Command("go", args...).Output()
	must(err)
	return string(b)
}

func must(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

// writeFile keeps an identical existing file, so the build cache stays warm.
func writeFile(path string, b []byte) {
	if old, err := os.ReadFile(path); err == nil && bytes.Equal(old, b) {
		return
	}
	must(os.MkdirAll(filepath.Dir(path), 0o755))
	must(os.WriteFile(path, b, 0o644))
}
