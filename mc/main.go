package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"k8s.io/klog/v2"
)

type checkFn func(c *Ctx)

var checks = map[string]checkFn{}

func register(id string, f checkFn) { checks[id] = f }

func main() {
	if os.Getenv("MC_REPLICA") != "" {
		klog.LogToStderr(false)
		klog.SetOutput(io.Discard)
		replicaMain()
		return
	}
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	verif := flag.String("verif", "/verif", "framework directory")
	seed := flag.Int64("seed", 1, "seed (recorded; no check makes a random choice)")
	replay := flag.String("replay", "", "replay one recorded violation")
	budget := flag.Duration("budget", 0, "time budget")
	flag.Parse()
	if *budget == 0 {
		*budget = 150 * time.Second
		if *tier == "thorough" {
			*budget = 9 * time.Minute
		}
	}
	f, ok := checks[*prop]
	if !ok {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println("unknown property", *prop, "have", ids)
		os.Exit(2)
	}
	if os.Getenv("MC_CHILD") == "" {
		os.Exit(parent(*prop, *verif))
	}
	klog.LogToStderr(false)
	klog.SetOutput(io.Discard)
	c := newCtx(*prop, *tier, *verif, *seed, *budget)
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		c.replay = new(replayFile)
		if err := json.Unmarshal(b, c.replay); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
	}
	if pf := os.Getenv("MC_PROFILE"); pf != "" {
		w, err := os.Create(pf)
		if err == nil {
			_ = pprof.StartCPUProfile(w)
		}
	}
	f(c)
	pprof.StopCPUProfile()
	os.Exit(c.finish())
}

// parent runs the check in a child process, so that a fatal error of the code under test
// (stack overflow, concurrent map access, out of goroutines) is reported as a violation
// with its trace instead of ending the check without an answer.
func parent(prop, verif string) int {
	for attempt := 1; ; attempt++ {
		logf, err := os.CreateTemp("", "mc-"+prop+"-*.log")
		if err != nil {
			fmt.Println(err)
			return 2
		}
		cmd := exec.Command(os.Args[0], os.Args[1:]...)
		cmd.Env = append(os.Environ(), "MC_CHILD=1")
		races := ""
		if raceOn {
			if races, err = os.MkdirTemp("", "mc-race-*"); err != nil {
				fmt.Println(err)
				return 2
			}
			cmd.Env = append(cmd.Env, "MC_RACELOG="+races+"/race",
				"GORACE=log_path="+races+"/race exitcode=0 halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 atexit_sleep_ms=0")
		}
		cmd.Stdout = os.Stdout
		cmd.Stderr = logf
		err = cmd.Run()
		if races != "" {
			os.RemoveAll(races)
		}
		logf.Close()
		b, _ := os.ReadFile(logf.Name())
		os.Remove(logf.Name())
		if err == nil {
			return 0
		}
		code := cmd.ProcessState.ExitCode()
		if code == 1 {
			return 1
		}
		text := string(b)
		fatal := ""
		for _, m := range []string{"stack overflow", "goroutine stack exceeds", "fatal error: concurrent map", "all goroutines are asleep", "panic: "} {
			if i := strings.Index(text, m); i >= 0 && strings.Contains(text[i:], "github.com/fdymylja/tmos/") {
				if i > 200 {
					text = text[i-200:]
				}
				fatal = m
				break
			}
		}
		if fatal == "" {
			for _, at := range []string{"\npanic:", "\nHARNESS"} {
				if i := strings.Index(text, at); i > 0 {
					text = text[i:]
				}
			}
			fmt.Printf("check process ended with code %d\n%s\n", code, trunc(text, 4000))
			return 2
		}
		if attempt < 2 {
			continue
		}
		dir := verif + "/replay"
		_ = os.MkdirAll(dir, 0o755)
		path := fmt.Sprintf("%s/%s-crash.log", dir, prop)
		_ = os.WriteFile(path, []byte(text), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n  the process under test died: %s\n%s\n", prop, path, fatal, trunc(text, 2500))
		return 1
	}
}
