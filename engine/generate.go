package main

// Some harnesses check code that the code under test generates. For a harness
// package p with a directory pgen beside it, the program in pgen is built with
// the code under test and run, and what it prints becomes package pws.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
)

// generated maps virtual files to generated ones.
var generated = map[string]string{}

// generate runs the generators of the harness packages. A generator that
// fails, or generates code that does not compile, breaks the property: why
// tells what happened. err is for failures of the machinery.
func generate(repo, harnessDir string, pkgs []string, dir string) (why string, err error) {
	for _, p := range pkgs {
		if _, err := os.Stat(filepath.Join(harnessDir, p+"gen", "main.go")); err != nil {
			continue
		}
		ov, err := harnessOverlay(repo, harnessDir)
		if err != nil {
			return "", err
		}
		file := filepath.Join(dir, p+"ws.go")
		bin := filepath.Join(dir, p+"gen")
		goCmd := func(args ...string) ([]byte, error) {
			oj, _ := json.Marshal(map[string]any{"Replace": ov})
			ovf := filepath.Join(dir, "overlay.json")
			os.WriteFile(ovf, oj, 0o644)
			cmd := exec.Command("go", append([]string{args[0], "-overlay", ovf}, args[1:]...)...)
			cmd.Dir = repo
			cmd.Env = goEnv()
			return cmd.CombinedOutput()
		}
		if b, err := goCmd("build", "-o", bin, zzPath+"/"+p+"gen"); err != nil {
			return "", fmt.Errorf("building the generator: %v\n%s", err, b)
		}
		cmd := exec.Command(bin)
		cmd.Dir = dir
		src, err := cmd.Output()
		if err != nil {
			msg := string(src)
			if x, ok := err.(*exec.ExitError); ok {
				msg += string(x.Stderr)
			}
			return fmt.Sprintf("generating code from the schema in %sgen/main.go failed: %v\n%.2000s", p, err, msg), nil
		}
		if err := os.WriteFile(file, src, 0o644); err != nil {
			return "", err
		}
		v := filepath.Join(repo, "internal", "zzverif", p+"ws", "ws.go")
		generated[v] = file
		ov[v] = file
		if b, err := goCmd("build", zzPath+"/"+p+"ws"); err != nil {
			return fmt.Sprintf("the code generated from the schema in %sgen/main.go does not compile: %.2000s", p, b), nil
		}
		if b, err := goCmd("build", zzPath+"/"+p); err != nil {
			return fmt.Sprintf("the code generated from the schema in %sgen/main.go lacks declarations of the schema: %.2000s", p, b), nil
		}
	}
	return "", nil
}

// generateFailed reports that code could not be generated.
func generateFailed(root, repo string, cfg CheckCfg, tier string, seed int, why string, wall float64) int {
	name := filepath.Join(root, "evidence", cfg.Property+".replay0.json")
	rf := replayFile{Property: cfg.Property, Harness: cfg.Harnesses[0].Pkg + "." + cfg.Harnesses[0].H, Kind: "generate", Label: "code is generated and compiles", Message: why,
		Native: why, How: "/verif/check --replay " + name + " (runs the generator natively)"}
	b, _ := json.MarshalIndent(rf, "", " ")
	os.WriteFile(name, b, 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", cfg.Property, name, why)
	ev := map[string]any{"property": cfg.Property, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": wall, "violations": 1,
		"assumptions": cfg.Assumptions, "coverage": map[string]any{"states": 1, "transitions": 1, "traces_validated_against_impl": 1, "samples": []any{why},
			"notes": []string{"the generator failed; nothing was explored symbolically"}}}
	b, _ = json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(root, "evidence", cfg.Property+".json"), append(b, '\n'), 0o644)
	return 1
}
