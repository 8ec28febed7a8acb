package internal

// Demonstrations of the genuine defects found in xtfly/log4g while the
// properties were being written. They are run by hand through an overlay (see
// run.sh); no registered check runs them.

import (
	"bytes"
	"context"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/xtfly/log4g/api"
)

func freshManager() (*defManager, *factory) {
	m := newManager().(*defManager)
	m.RegisterFormatterCreator(typeText, NewTextFormatter)
	m.RegisterOutputCreator(typeConsole, NewConsoleOutput)
	m.RegisterOutputCreator(typeMemory, NewMemoryOutput)
	m.RegisterOutputCreator(typeRollingSize, NewRollingOutput)
	m.RegisterOutputCreator(typeRollingTime, NewRollingOutput)
	f := newFactory(m).(*factory)
	return m, f
}

func memCfg(layout string, loggers ...api.CfgLogger) *api.Config {
	return &api.Config{
		Formats: []api.CfgFormat{{"type": "text", "name": "f", "layout": layout}},
		Outputs: []api.CfgOutput{{"type": "memory", "name": "m", "format": "f"}, {"type": "memory", "name": "r", "format": "f"}},
		Loggers: append([]api.CfgLogger{{Name: "root", Level: "all", OutputNames: []string{"r"}}}, loggers...),
	}
}

// D01: Close returns while accepted events are still queued (WaitGroup.Add runs in the goroutine).
type slowWriter struct {
	sync.Mutex
	bytes.Buffer
}

func (s *slowWriter) Write(p []byte) (int, error) {
	s.Lock()
	defer s.Unlock()
	return s.Buffer.Write(p)
}

func TestD01AsyncCloseDrains(t *testing.T) {
	f, _ := NewTextFormatter(api.CfgFormat{"layout": "%{msg}"})
	for i := 0; i < 20000; i++ {
		w := &slowWriter{}
		o := NewAsyncOutput(w, api.All, 10, 10)
		o.SetFormatter(f)
		o.Send(&api.Event{Format: "x", Level: api.Info, Ctx: context.Background()})
		o.Close()
		w.Lock()
		n := w.Len()
		w.Unlock()
		if n != 1 {
			t.Fatalf("iteration %d: Close returned with %d of 1 events written", i, n)
		}
	}
}

// D02: Send concurrent with Close panics or blocks.
func TestD02AsyncSendClose(t *testing.T) {
	f, _ := NewTextFormatter(api.CfgFormat{"layout": "%{msg}"})
	for i := 0; i < 300; i++ {
		o := NewAsyncOutput(ioutil.Discard, api.All, 1, 1)
		o.SetFormatter(f)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						t.Errorf("Send panicked: %v", r)
					}
				}()
				for k := 0; k < 50; k++ {
					o.Send(&api.Event{Format: "x", Level: api.Info, Ctx: context.Background()})
				}
			}()
		}
		o.Close()
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			t.Fatal("a Send is blocked for ever after Close")
		}
		if t.Failed() {
			return
		}
	}
}

// D03: async output without formatter crashes (sync falls back to the default layout).
func TestD03AsyncNilFormatter(t *testing.T) {
	if os.Getenv("D03") != "" {
		o := NewAsyncOutput(ioutil.Discard, api.All, 1, 1)
		o.Send(&api.Event{Format: "x", Level: api.Info, Ctx: context.Background()})
		o.Close()
		return
	}
	c := exec.Command(os.Args[0], "-test.run=TestD03AsyncNilFormatter")
	c.Env = append(os.Environ(), "D03=1")
	if out, err := c.CombinedOutput(); err != nil {
		t.Fatalf("crashed: %v %.200s", err, out)
	}
}

// D04: fields/ctx lost when the logger inherits its outputs.
func TestD04FieldsInherited(t *testing.T) {
	m, f := freshManager()
	m.SetConfig(memCfg("%{k}|%{msg}", api.CfgLogger{Name: "p", Level: "all", OutputNames: []string{"m"}}))
	f.GetLogger("p")
	f.GetLogger("p/c").WithFields(api.Field{Key: "k", Value: "v"}).Info("x")
	if got := m.outputs["m"].(*memoryOutput).String(); got != "v|x" {
		t.Fatalf("got %q", got)
	}
}

// D05: Printf reports the caller of its caller.
func TestD05PrintfCaller(t *testing.T) {
	m, f := freshManager()
	m.SetConfig(memCfg("%{shortfunc}", api.CfgLogger{Name: "p", Level: "all", OutputNames: []string{"m"}}))
	f.GetLogger("p").Printf(api.Info, "x")
	if got := m.outputs["m"].(*memoryOutput).String(); got != "TestD05PrintfCaller" {
		t.Fatalf("got %q", got)
	}
}

// D06: size units are ignored.
func TestD06Size(t *testing.T) {
	for s, want := range map[string]int64{"1M": 1 << 20, "3K": 3 << 10, "2G": 2 << 30, "77": 77} {
		if got := getMaxSize(s); got != want {
			t.Errorf("size %s: %d, want %d", s, got, want)
		}
	}
}

// D07: closing a rolling output leaves the file open.
func TestD07CloseReleasesFile(t *testing.T) {
	d, _ := ioutil.TempDir("", "d07")
	defer os.RemoveAll(d)
	o, _ := NewRollingOutput(api.CfgOutput{"type": typeRollingSize, "file": filepath.Join(d, "a.log"), "size": "10"})
	o.Send(&api.Event{Format: "x", Level: api.Info, Ctx: context.Background()})
	o.Close()
	fds, _ := ioutil.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		if p, _ := os.Readlink("/proc/self/fd/" + fd.Name()); strings.HasPrefix(p, d) {
			t.Fatalf("%s still open", p)
		}
	}
}

// D08: one failed roll disables the writer for good.
func TestD08RollFailureRecovers(t *testing.T) {
	d, _ := ioutil.TempDir("", "d08")
	defer os.RemoveAll(d)
	rw := newRollingFileWriter(filepath.Join(d, "a.log"), "")
	rw.maxRolls = 3
	w := &rollingFileWriterSize{rw, 5}
	w.self = w
	w.Write([]byte("0123456789"))
	os.Mkdir(filepath.Join(d, "a.log.1"), 0755)
	ioutil.WriteFile(filepath.Join(d, "a.log.1", "x"), nil, 0600)
	if _, err := w.Write([]byte("b")); err == nil {
		t.Skip("roll did not fail")
	}
	os.RemoveAll(filepath.Join(d, "a.log.1"))
	if _, err := w.Write([]byte("c")); err != nil {
		t.Fatalf("still failing after the cause is gone: %v", err)
	}
}

// D09: LoadConfig swallows parse errors and unsupported formats.
func TestD09LoadConfigErrors(t *testing.T) {
	m, _ := freshManager()
	m.SetConfig(memCfg("%{msg}"))
	if err := m.LoadConfig([]byte("{not json"), "json"); err == nil {
		t.Error("malformed JSON accepted")
	}
	if err := m.LoadConfig([]byte("x"), "toml"); err == nil {
		t.Error("unsupported type accepted")
	}
	if len(m.config.Loggers) == 0 {
		t.Error("current configuration was replaced")
	}
}

// D10: LoadConfigFile panics on a file without extension.
func TestD10NoExt(t *testing.T) {
	d, _ := ioutil.TempDir("", "d10")
	defer os.RemoveAll(d)
	p := filepath.Join(d, "conf")
	ioutil.WriteFile(p, []byte("{}"), 0600)
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("panic: %v", r)
		}
	}()
	m, _ := freshManager()
	if err := m.LoadConfigFile(p); err == nil {
		t.Error("accepted")
	}
}

// D11: duplicate loggers are not rejected.
func TestD11DupLoggers(t *testing.T) {
	m, _ := freshManager()
	if err := m.SetConfig(memCfg("%{msg}", api.CfgLogger{Name: "p", Level: "info"}, api.CfgLogger{Name: "p", Level: "error"})); err == nil {
		t.Error("duplicate logger accepted")
	}
}

// D12: an intermediate logger first seen as an ancestor never gets its configuration.
func TestD12Order(t *testing.T) {
	m, f := freshManager()
	m.SetConfig(memCfg("%{msg}", api.CfgLogger{Name: "p", Level: "error", OutputNames: []string{"m"}}))
	c := f.GetLogger("p/c")
	if c.Level() != api.Error {
		t.Errorf("p/c level %v, want ERROR from p", c.Level())
	}
	if l := f.GetLogger("p").Level(); l != api.Error {
		t.Errorf("p level %v, want ERROR", l)
	}
}

// D13: archive: configured archiving never produces an archive; D14: it deletes the backup all the same.
func TestD13Archive(t *testing.T) {
	d, _ := ioutil.TempDir("", "d13")
	defer os.RemoveAll(d)
	o, _ := NewRollingOutput(api.CfgOutput{"type": typeRollingSize, "file": filepath.Join(d, "a.log"), "size": "1", "backups": "1", "archive": "gzip", "dir_perm": "0755"})
	for i := 0; i < 5; i++ {
		o.Send(&api.Event{Format: fmt.Sprint("x", i), Level: api.Info, Ctx: context.Background()})
	}
	gz, _ := filepath.Glob(filepath.Join(d, "*.gz"))
	all, _ := filepath.Glob(filepath.Join(d, "*"))
	if len(gz) == 0 {
		t.Fatalf("no archive; files: %v", all)
	}
}

func TestD14KeepWhenArchiveFails(t *testing.T) {
	d, _ := ioutil.TempDir("", "d14")
	defer os.RemoveAll(d)
	rw := newRollingFileWriter(filepath.Join(d, "a.log"), filepath.Join(d, "f", "x"))
	ioutil.WriteFile(filepath.Join(d, "f"), []byte("not a directory"), 0600)
	rw.maxRolls = 1
	rw.archiveType = rollingArchiveGzip
	rw.archiveExploded = true
	w := &rollingFileWriterSize{rw, 1}
	w.self = w
	for i := 0; i < 4; i++ {
		w.Write([]byte{byte('0' + i)})
	}
	var all string
	fs, _ := filepath.Glob(filepath.Join(d, "a.log*"))
	for _, f := range fs {
		b, _ := ioutil.ReadFile(f)
		all += string(b)
	}
	for i := 0; i < 4; i++ {
		if !strings.Contains(all, string(rune('0'+i))) {
			t.Fatalf("record %d is in no file and in no archive (%v)", i, fs)
		}
	}
}

// D15: the library swallows SIGINT/SIGTERM for the rest of the process's life.
func TestD15Signal(t *testing.T) {
	if os.Getenv("D15") != "" {
		for i := 0; i < 40; i++ {
			syscall.Kill(os.Getpid(), syscall.SIGTERM)
			time.Sleep(50 * time.Millisecond)
		}
		fmt.Println("SURVIVED")
		os.Exit(0)
	}
	c := exec.Command(os.Args[0], "-test.run=TestD15Signal")
	c.Env = append(os.Environ(), "D15=1")
	if out, _ := c.CombinedOutput(); strings.Contains(string(out), "SURVIVED") {
		t.Fatal("40 SIGTERMs did not end the process")
	}
}

// D16: debugging output on stderr for every rolling output.
func TestD16Noise(t *testing.T) {
	if os.Getenv("D16") != "" {
		NewRollingOutput(api.CfgOutput{"type": typeRollingSize, "file": "x/a.log"})
		os.Exit(0)
	}
	c := exec.Command(os.Args[0], "-test.run=TestD16Noise")
	c.Env = append(os.Environ(), "D16=1")
	if out, _ := c.CombinedOutput(); len(out) != 0 {
		t.Fatalf("printed %q", out)
	}
}

// D17: a user field can collide with the library's own context key.
func TestD17KeyCollision(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("panic: %v", r)
		}
	}()
	m, f := freshManager()
	m.SetConfig(memCfg("%{line}", api.CfgLogger{Name: "p", Level: "all", OutputNames: []string{"m"}}))
	f.GetLogger("p").WithFields(api.Field{Key: "__caller_info", Value: "x"}).Info("x")
}

// D18 (run with -race): reconfiguration races with logging.
func TestD18ReconfigureRace(t *testing.T) {
	m, f := freshManager()
	cfg := memCfg("%{msg}", api.CfgLogger{Name: "p", Level: "error", OutputNames: []string{"m"}})
	m.SetConfig(cfg)
	l := f.GetLogger("p")
	done := make(chan bool)
	go func() {
		for i := 0; i < 200; i++ {
			l.Debug("x")
		}
		close(done)
	}()
	for i := 0; i < 50; i++ {
		m.SetConfig(cfg)
	}
	<-done
}

// D19 (run with -race): two goroutines logging to one memory output.
func TestD19MemoryRace(t *testing.T) {
	m, f := freshManager()
	m.SetConfig(memCfg("%{msg}", api.CfgLogger{Name: "p", Level: "all", OutputNames: []string{"m"}}))
	l := f.GetLogger("p")
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 500; i++ {
				l.Info("0123456789")
			}
		}()
	}
	wg.Wait()
	if n := m.outputs["m"].(*memoryOutput).buf.Len(); n != 4*500*10 {
		t.Fatalf("%d bytes, want %d", n, 4*500*10)
	}
}

// D20: a changed format/output definition is ignored once one of that name exists.
func TestD20Reconfigure(t *testing.T) {
	m, f := freshManager()
	p := api.CfgLogger{Name: "p", Level: "all", OutputNames: []string{"m"}}
	m.SetConfig(memCfg("old %{msg}", p))
	l := f.GetLogger("p")
	m.SetConfig(memCfg("new %{msg}", p))
	l.Info("x")
	if got := m.outputs["m"].(*memoryOutput).String(); got != "new x" {
		t.Fatalf("got %q", got)
	}
}

// D21: a time roll overwrites an existing backup of the same name.
func TestD21TimeRollOverwrites(t *testing.T) {
	d, _ := ioutil.TempDir("", "d21")
	defer os.RemoveAll(d)
	rw := newRollingFileWriter(filepath.Join(d, "a.log"), "")
	rw.maxRolls = 5
	w := &rollingFileWriterTime{rw, "2006", ""}
	w.self = w
	ioutil.WriteFile(filepath.Join(d, "a.log.1999"), []byte("old"), 0600)
	w.Write([]byte("x"))
	w.currentTimeFileName = "1999"
	w.Write([]byte("y"))
	b, _ := ioutil.ReadFile(filepath.Join(d, "a.log.1999"))
	if !strings.Contains(string(b), "old") {
		t.Fatalf("backup now holds %q", b)
	}
}

// D22: the parent's level discards what the child's own level admits.
func TestD22ChildLevelDecides(t *testing.T) {
	m, f := freshManager()
	m.SetConfig(memCfg("%{msg}", api.CfgLogger{Name: "p", Level: "error", OutputNames: []string{"m"}}, api.CfgLogger{Name: "p/c", Level: "debug"}))
	f.GetLogger("p")
	l := f.GetLogger("p/c")
	l.Debug("x")
	if got := m.outputs["m"].(*memoryOutput).String(); !l.DebugEnabled() || got != "x" {
		t.Fatalf("enabled %v, got %q", l.DebugEnabled(), got)
	}
}
