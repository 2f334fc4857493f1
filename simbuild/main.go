// simbuild builds a simulator binary from the working tree of the repository:
// it patches the Go runtime, generates protobuf code, instruments the
// repository's packages, adds the harness packages and runs go build, all
// through an overlay (nothing is written into the repository).
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

var (
	repo    = flag.String("repo", "/repo", "repository")
	verif   = flag.String("verif", "/verif", "verification tree")
	goroot  = flag.String("goroot", "/opt/veriftools/go1.24.13", "Go toolchain")
	tools   = flag.String("tools", "/opt/vp/tools", "protoc plugins")
	outDir  = flag.String("out", "", "scratch directory")
	pkg     = flag.String("pkg", "", "command package below zz_verif to build")
	binPath = flag.String("bin", "", "binary to write")
)

func main() {
	flag.Parse()
	if err := run(); err != nil {
		fmt.Fprintln(os.Stderr, "simbuild:", err)
		os.Exit(2)
	}
}

// noYield lists packages without shared state, where preemption points would
// only cost time.
var noYield = map[string]bool{
	"util/murmur": true, "dkv/bloom": true, "dkv/fields": true, "dkv/kv": true,
	"logging": true, "telemetry": true,
}

// skipDirs are not instrumented at all.
var skipDirs = []string{"cmd", "e2e", "testrun", "rundev", "telemetry", "logging", "connectors/kinesis/kinesisfake", "connectors/kafka"}

func run() error {
	if err := os.MkdirAll(*outDir, 0o755); err != nil {
		return err
	}
	overlay := map[string]string{}
	add := func(m map[string]string) {
		for k, v := range m {
			overlay[k] = v
		}
	}
	m, err := patchRuntime(*goroot, filepath.Join(*outDir, "rt"), filepath.Join(*verif, "simbuild", "zsim.go.txt"))
	if err != nil {
		return err
	}
	// The overlay needs a .go name only as the key.
	add(m)
	stubs, err := genStubs()
	if err != nil {
		return err
	}
	if m, err = genRepoProtos(stubs); err != nil {
		return err
	}
	add(m)
	modfile, err := prepareModfile(stubs)
	if err != nil {
		return err
	}
	harness, err := harnessOverlay()
	if err != nil {
		return err
	}
	add(harness)

	// Levels: full instrumentation; without per-node globals, which is only a
	// fallback for source the rewriter does not handle.
	var lastErr error
	for level := 0; level < 2; level++ {
		ov := map[string]string{}
		for k, v := range overlay {
			ov[k] = v
		}
		in := &instrumenter{}
		if err := instrumentAll(in, ov, level); err != nil {
			lastErr = err
			continue
		}
		info := map[string]any{"level": level, "yields": in.yields, "cleanups": in.cleanups, "perNodeVars": in.globalNames, "osImports": in.osImports}
		b, _ := json.Marshal(info)
		if err := writeIfChanged(filepath.Join(*outDir, "instrument.json"), b); err != nil {
			return err
		}
		ovPath := filepath.Join(*outDir, "overlay.json")
		b, _ = json.MarshalIndent(map[string]any{"Replace": ov}, "", " ")
		if err := writeIfChanged(ovPath, b); err != nil {
			return err
		}
		cmd := exec.Command(filepath.Join(*goroot, "bin", "go"), "build", "-overlay", ovPath, "-modfile", modfile, "-mod=mod",
			"-tags", "verif", "-trimpath", "-o", *binPath, "./zz_verif/"+*pkg)
		cmd.Dir = *repo
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		if err := cmd.Run(); err != nil {
			lastErr = fmt.Errorf("go build (level %d): %w\n%s", level, err, out.String())
			continue
		}
		return nil
	}
	return lastErr
}

func instrumentAll(in *instrumenter, ov map[string]string, level int) error {
	var dirs []string
	err := filepath.WalkDir(*repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if !d.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(*repo, p)
		base := d.Name()
		if rel != "." && (strings.HasPrefix(base, ".") || base == "testdata" || base == "zz_verif") {
			return filepath.SkipDir
		}
		for _, s := range skipDirs {
			if rel == s || strings.HasPrefix(rel, s+"/") {
				return filepath.SkipDir
			}
		}
		if strings.HasSuffix(rel, "pb") || strings.HasSuffix(rel, "connect") {
			return nil
		}
		dirs = append(dirs, rel)
		return nil
	})
	if err != nil {
		return err
	}
	sort.Strings(dirs)
	for _, rel := range dirs {
		in.noGlobals = level > 0
		in.sparse = rel == "dkv/storage"
		in.simos = strings.HasPrefix(rel, "dkv") || strings.HasPrefix(rel, "storage")
		in.simaws = strings.HasPrefix(rel, "connectors/")
		m, err := in.dir(filepath.Join(*repo, rel), filepath.Join(*outDir, "src", rel), !noYield[rel])
		if err != nil {
			return fmt.Errorf("instrument %s: %w", rel, err)
		}
		for k, v := range m {
			ov[k] = v
		}
	}
	return nil
}

func harnessOverlay() (map[string]string, error) {
	out := map[string]string{}
	root := filepath.Join(*verif, "harness")
	err := filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if !d.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(root, p)
			out[filepath.Join(*repo, "zz_verif", rel)] = p
		}
		return nil
	})
	return out, err
}

func protoc(dir string, args ...string) error {
	cmd := exec.Command("protoc", args...)
	cmd.Dir = dir
	b, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("protoc %v: %w\n%s", args, err, b)
	}
	return nil
}

func pluginArgs(goOut string) []string {
	return []string{
		"--plugin=protoc-gen-go=" + filepath.Join(*tools, "protoc-gen-go"),
		"--go_opt=paths=source_relative", "--go_out=" + goOut,
		"--plugin=protoc-gen-connect-go=" + filepath.Join(*tools, "protoc-gen-connect-go"),
		"--connect-go_opt=paths=source_relative", "--connect-go_out=" + goOut,
	}
}

// genStubs generates the stand-in protocol module into the scratch directory.
func genStubs() (string, error) {
	src := filepath.Join(*verif, "stubs", "reduction-protocol")
	dst := filepath.Join(*outDir, "reduction-protocol")
	if err := os.MkdirAll(dst, 0o755); err != nil {
		return "", err
	}
	for _, f := range []string{"go.mod"} {
		b, err := os.ReadFile(filepath.Join(src, f))
		if err != nil {
			return "", err
		}
		if err := writeIfChanged(filepath.Join(dst, f), b); err != nil {
			return "", err
		}
	}
	ps, _ := filepath.Glob(filepath.Join(src, "*", "*.proto"))
	sort.Strings(ps)
	var rels []string
	for _, p := range ps {
		rel, _ := filepath.Rel(src, p)
		rels = append(rels, rel)
	}
	if err := protoc(src, append(append([]string{"-I", "."}, pluginArgs(dst)...), rels...)...); err != nil {
		return "", err
	}
	return dst, nil
}

// genRepoProtos generates the repository's protobuf code and returns overlay
// entries that put it (and nothing stale) in place.
func genRepoProtos(stubs string) (map[string]string, error) {
	dst := filepath.Join(*outDir, "gen")
	if err := os.MkdirAll(dst, 0o755); err != nil {
		return nil, err
	}
	var rels []string
	stale := map[string]string{}
	for _, d := range []string{"proto", "connectors"} {
		err := filepath.WalkDir(filepath.Join(*repo, d), func(p string, de fs.DirEntry, err error) error {
			if err != nil {
				return err
			}
			rel, _ := filepath.Rel(*repo, p)
			if strings.HasSuffix(p, ".proto") {
				rels = append(rels, rel)
			}
			if strings.HasSuffix(p, ".pb.go") || strings.HasSuffix(p, ".connect.go") {
				stale[p] = ""
			}
			return nil
		})
		if err != nil {
			return nil, err
		}
	}
	sort.Strings(rels)
	args := append([]string{"-I", ".", "-I", filepath.Join(*verif, "stubs", "reduction-protocol")}, pluginArgs(dst)...)
	if err := protoc(*repo, append(args, rels...)...); err != nil {
		return nil, err
	}
	out := stale
	err := filepath.WalkDir(dst, func(p string, de fs.DirEntry, err error) error {
		if err == nil && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(dst, p)
			out[filepath.Join(*repo, rel)] = p
		}
		return err
	})
	return out, err
}

// prepareModfile derives a module file from the repository's that replaces the
// two unavailable modules.
func prepareModfile(stubs string) (string, error) {
	mod := filepath.Join(*outDir, "go.mod")
	b, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		return "", err
	}
	var keep []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "reduction.dev/reduction-go") || strings.Contains(l, "reduction.dev/reduction-protocol") {
			continue
		}
		keep = append(keep, l)
	}
	s := strings.Join(keep, "\n") + "\nrequire reduction.dev/reduction-protocol v0.0.0\n\nreplace reduction.dev/reduction-protocol => " + stubs + "\n"
	// -mod=mod may rewrite the file; always start from the derived text.
	if err := os.WriteFile(mod, []byte(s), 0o644); err != nil {
		return "", err
	}
	sum, err := os.ReadFile(filepath.Join(*repo, "go.sum"))
	if err != nil {
		return "", err
	}
	return mod, os.WriteFile(filepath.Join(*outDir, "go.sum"), sum, 0o644)
}
