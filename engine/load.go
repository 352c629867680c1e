package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoDir = "/repo"
const hBase = "github.com/JohannesKaufmann/html-to-markdown/v2/internal/zzverif/"

// hDir is the package of the harness functions: h, or hc for the command line
// program.
var hDir = "h"

// overlayFiles maps virtual paths in /repo to files of the framework.
func overlayFiles(verif, work string, fns []string) (map[string]string, error) {
	m := map[string]string{}
	for _, d := range []string{"sym", hDir} {
		fs, _ := filepath.Glob(filepath.Join(verif, "harness", d, "*.go"))
		for _, f := range fs {
			m[filepath.Join(repoDir, "internal/zzverif", d, filepath.Base(f))] = f
		}
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"" + hBase + hDir + "\"\n\t\"" + symPkg + "\"\n)\n\nfunc main() {\n\tsym.RunAll(map[string]func(){\n")
	for _, f := range fns {
		fmt.Fprintf(&sb, "\t\t%q: %s.%s,\n", f, hDir, f)
	}
	sb.WriteString("\t})\n}\n")
	mf := filepath.Join(work, "zz_main.go")
	if err := os.WriteFile(mf, []byte(sb.String()), 0o644); err != nil {
		return nil, err
	}
	m[filepath.Join(repoDir, "internal/zzverif/run/main.go")] = mf
	return m, nil
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "PATH=/opt/veriftools/go1.27.3/bin:"+os.Getenv("PATH"), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GOSUMDB=off", "CGO_ENABLED=0")
	return env
}

func loadProgram(ov map[string]string) error {
	overlay := map[string][]byte{}
	for k, f := range ov {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		overlay[k] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Env: goEnv(), Overlay: overlay}
	pk, err := packages.Load(cfg, "./internal/zzverif/"+hDir)
	if err != nil {
		return err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	theProg = prog
	return nil
}

func writeOverlay(ov map[string]string, file string) error {
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	return os.WriteFile(file, b, 0o644)
}

func buildRunner(ovFile, out string, race bool) error {
	args := []string{"build", "-overlay", ovFile, "-o", out}
	env := goEnv()
	if race {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	}
	cmd := exec.Command("go", append(args, "./internal/zzverif/run")...)
	cmd.Dir = repoDir
	cmd.Env = env
	b, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("build of the replay program: %v\n%s", err, b)
	}
	return nil
}

func harnessFn(name string) (*ssa.Function, error) {
	p := theProg.ImportedPackage(hBase + hDir)
	if p == nil {
		return nil, fmt.Errorf("no harness package")
	}
	f := p.Func(name)
	if f == nil {
		return nil, fmt.Errorf("no harness function %s", name)
	}
	return f, nil
}

func repoFunctions() []string {
	fnMu.Lock()
	defer fnMu.Unlock()
	var out []string
	for _, f := range fnList {
		if f.repo && f.entered.Load() && !strings.Contains(f.name, "zzverif") && !strings.HasSuffix(f.name, ".init") {
			out = append(out, strings.ReplaceAll(f.name, "github.com/JohannesKaufmann/html-to-markdown/v2", "v2"))
		}
	}
	sort.Strings(out)
	return out
}
