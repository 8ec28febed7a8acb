From 6c09d2897cb95f8a997d39da1e2350bebdb76119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:57 +0000
Subject: [PATCH 01/22] fix: async Close waits for the loop even when it has
 not started yet

WaitGroup.Add ran inside the goroutine it counts, so Close could return
before the queued events were written.
---
 internal/output_base.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/output_base.go b/internal/output_base.go
index 787a12b..daba512 100644
--- a/internal/output_base.go
+++ b/internal/output_base.go
@@ -113,6 +113,7 @@ func NewAsyncOutput(w io.Writer, threshold api.Level, queueSize int, batchNum in
 		batchNum: batchNum,
 	}
 	o.baseOutput = &baseOutput{w: w, t: threshold}
+	o.wait.Add(1)
 	go o.loop()
 	return o
 }
@@ -153,7 +154,6 @@ func (o *asyncOutput) flush() {
 }
 
 func (o *asyncOutput) loop() {
-	o.wait.Add(1)
 	defer o.wait.Done()
 
 	tick := time.NewTicker(5 * time.Second)
-- 
2.43.0


From 2f2205385fb29172ce527ab49c84d257650a477d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:58 +0000
Subject: [PATCH 02/22] fix: Send concurrent with Close of an async output no
 longer panics or hangs

Send checked the closed flag and then sent without any exclusion against
Close, so it could send on a closed channel, or block for ever on a queue
nobody reads any more; concurrent Close calls had the same problem.
---
 internal/output_base.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/internal/output_base.go b/internal/output_base.go
index daba512..59b1b8f 100644
--- a/internal/output_base.go
+++ b/internal/output_base.go
@@ -6,7 +6,6 @@ import (
 	"io"
 	"strconv"
 	"sync"
-	"sync/atomic"
 	"time"
 
 	"github.com/xtfly/log4g/api"
@@ -15,11 +14,10 @@ import (
 const (
 	defaultLayout = "%-5s [%s] %s: %s\n"
 
-	queueMinSize       = 1000
-	queueMaxSize       = 100000
-	batchMinNum        = 20
-	batchMaxNum        = 500
-	flagClosed   int32 = 1
+	queueMinSize = 1000
+	queueMaxSize = 100000
+	batchMinNum  = 20
+	batchMaxNum  = 500
 )
 
 // ------------------------------------
@@ -125,25 +123,28 @@ type asyncOutput struct {
 	currNum  int
 	buf      bytes.Buffer
 	wait     sync.WaitGroup
-	closed   int32
+	lock     sync.RWMutex // guards closed and the closing of evtChan
+	closed   bool
 }
 
 func (o *asyncOutput) Send(e *api.Event) {
-	if atomic.LoadInt32(&o.closed) == flagClosed {
+	o.lock.RLock()
+	defer o.lock.RUnlock()
+	if o.closed {
 		return
 	}
 	o.evtChan <- e
 }
 
 func (o *asyncOutput) Close() {
+	o.lock.Lock()
 	// support duplicate call Close method
-	if atomic.LoadInt32(&o.closed) == flagClosed {
-		return
+	if !o.closed {
+		o.closed = true
+		close(o.evtChan)
 	}
-	o.evtChan <- nil
+	o.lock.Unlock()
 	o.wait.Wait()
-	atomic.StoreInt32(&o.closed, flagClosed)
-	close(o.evtChan)
 }
 
 func (o *asyncOutput) flush() {
-- 
2.43.0


From bc9e3ecd187b11b0819d2f855020c615e5acbe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:16 +0000
Subject: [PATCH 03/22] fix: async output without a formatter uses the default
 layout instead of crashing

---
 internal/output_base.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/internal/output_base.go b/internal/output_base.go
index 59b1b8f..5f9d364 100644
--- a/internal/output_base.go
+++ b/internal/output_base.go
@@ -40,16 +40,20 @@ func (o *baseOutput) Send(e *api.Event) {
 		return
 	}
 
+	o.w.Write(o.format(e))
+}
+
+// format a event by the formatter, or by the default layout when there is none
+func (o *baseOutput) format(e *api.Event) []byte {
 	if o.f != nil {
-		o.w.Write([]byte(o.f.Format(e)))
-		return
+		return o.f.Format(e)
 	}
 
-	fmt.Fprintf(o.w, defaultLayout,
+	return []byte(fmt.Sprintf(defaultLayout,
 		e.Level.String(),
 		e.Time.Format(defaultTimeLayout),
 		e.Name,
-		e.Message())
+		e.Message()))
 }
 
 // SetFormatter set a formatter for output
@@ -171,7 +175,7 @@ func (o *asyncOutput) loop() {
 			}
 
 			if evt.Level >= o.t {
-				o.buf.Write(o.f.Format(evt))
+				o.buf.Write(o.format(evt))
 				o.currNum++
 				if o.currNum >= o.batchNum {
 					o.flush()
-- 
2.43.0


From f21ca641c12267db1346aecbbe6c853c774a6987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:17 +0000
Subject: [PATCH 04/22] fix: serialize concurrent writes of a synchronous
 output

The destination (the memory output's buffer in particular) need not be safe
for concurrent use, and every logging goroutine calls Send.
---
 internal/output_base.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/output_base.go b/internal/output_base.go
index 5f9d364..2b17ca1 100644
--- a/internal/output_base.go
+++ b/internal/output_base.go
@@ -25,7 +25,8 @@ const (
 type baseOutput struct {
 	w io.Writer
 	f api.Formatter
-	t api.Level //threshold
+	t api.Level  //threshold
+	m sync.Mutex // serializes the writes of concurrent senders
 }
 
 // NewBaseOutput ...
@@ -40,7 +41,10 @@ func (o *baseOutput) Send(e *api.Event) {
 		return
 	}
 
-	o.w.Write(o.format(e))
+	bs := o.format(e)
+	o.m.Lock()
+	defer o.m.Unlock()
+	o.w.Write(bs)
 }
 
 // format a event by the formatter, or by the default layout when there is none
-- 
2.43.0


From 9345732e0153679dfcc34df51bfc698de4965091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:39 +0000
Subject: [PATCH 05/22] fix: a logger that inherits its outputs keeps its
 fields, context and level

Delegating to the parent's own writer dropped the values attached with
WithFields/WithCtx, and let the parent's level discard messages the child's
level admits (DebugEnabled() answered true and the message vanished).
---
 internal/logger.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index bea1c2a..c0137b9 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -167,11 +167,12 @@ func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args
 		return
 	}
 
-	if len(l.logger.outputs) == 0 {
-		if l.logger.parent != nil {
-			l.logger.parent.write(name, skip+1, lvl, fmt, args...)
-			return
-		}
+	// without outputs of its own, a logger uses those of its nearest ancestor having some
+	owner := l.logger
+	for len(owner.outputs) == 0 && owner.parent != nil {
+		owner = owner.parent
+	}
+	if len(owner.outputs) == 0 {
 		log.Println("Warnning: not find outputs and parent for logger " + name)
 	}
 
@@ -186,14 +187,14 @@ func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args
 		Ctx:       l.ctx,
 	}
 
-	if l.logger.callerInfoFlag == ciFuncFlag {
+	if owner.callerInfoFlag == ciFuncFlag {
 		getCallerInfo(evt, true)
-	} else if l.logger.callerInfoFlag == ciFileFlag {
+	} else if owner.callerInfoFlag == ciFileFlag {
 		getCallerInfo(evt, false)
 	}
 
 	// dispatch event to all outputs
-	for _, v := range l.logger.outputs {
+	for _, v := range owner.outputs {
 		v.Send(evt)
 	}
 }
-- 
2.43.0


From cf2183b8379a1a9b216eb93f8e12a6086a3433a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:40 +0000
Subject: [PATCH 06/22] fix: Printf reports its own caller, not its caller's
 caller

---
 internal/logger.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index c0137b9..9b8bf82 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -111,54 +111,59 @@ type defWriter struct {
 }
 
 func (l *defWriter) Tracef(fmt string, args ...interface{}) {
-	l.Printf(api.Trace, fmt, args...)
+	l.printf(api.Trace, fmt, args...)
 }
 
 func (l *defWriter) Trace(msg ...interface{}) {
-	l.Printf(api.Trace, "", msg...)
+	l.printf(api.Trace, "", msg...)
 }
 
 func (l *defWriter) Debugf(fmt string, args ...interface{}) {
-	l.Printf(api.Debug, fmt, args...)
+	l.printf(api.Debug, fmt, args...)
 }
 
 func (l *defWriter) Debug(msg ...interface{}) {
-	l.Printf(api.Debug, "", msg...)
+	l.printf(api.Debug, "", msg...)
 }
 
 func (l *defWriter) Infof(fmt string, args ...interface{}) {
-	l.Printf(api.Info, fmt, args...)
+	l.printf(api.Info, fmt, args...)
 }
 
 func (l *defWriter) Info(msg ...interface{}) {
-	l.Printf(api.Info, "", msg...)
+	l.printf(api.Info, "", msg...)
 }
 
 func (l *defWriter) Warnf(fmt string, args ...interface{}) {
-	l.Printf(api.Warn, fmt, args...)
+	l.printf(api.Warn, fmt, args...)
 }
 
 func (l *defWriter) Warn(msg ...interface{}) {
-	l.Printf(api.Warn, "", msg...)
+	l.printf(api.Warn, "", msg...)
 }
 
 func (l *defWriter) Errorf(fmt string, args ...interface{}) {
-	l.Printf(api.Error, fmt, args...)
+	l.printf(api.Error, fmt, args...)
 }
 
 func (l *defWriter) Error(msg ...interface{}) {
-	l.Printf(api.Error, "", msg...)
+	l.printf(api.Error, "", msg...)
 }
 
 func (l *defWriter) Criticalf(fmt string, args ...interface{}) {
-	l.Printf(api.Critical, fmt, args...)
+	l.printf(api.Critical, fmt, args...)
 }
 
 func (l *defWriter) Critical(msg ...interface{}) {
-	l.Printf(api.Critical, "", msg...)
+	l.printf(api.Critical, "", msg...)
 }
 
 func (l *defWriter) Printf(lvl api.Level, fmt string, args ...interface{}) {
+	l.printf(lvl, fmt, args...)
+}
+
+// printf is called directly by every logging method: callerSkip counts on it
+func (l *defWriter) printf(lvl api.Level, fmt string, args ...interface{}) {
 	l.write(l.logger.name, l.logger.callerSkip, lvl, fmt, args...)
 }
 
-- 
2.43.0


From ff7fc6708f0bca570d0294a16528d45cbdd1f04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 07/22] fix: a user field can no longer collide with the caller
 info key

---
 internal/logger_callerinfo.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/logger_callerinfo.go b/internal/logger_callerinfo.go
index d20ff85..146fae6 100644
--- a/internal/logger_callerinfo.go
+++ b/internal/logger_callerinfo.go
@@ -14,6 +14,10 @@ const (
 	ciFuncFlag
 )
 
+// callerInfoKey is the context key of the caller info of an event, its type
+// keeps it apart from the keys of user fields
+type callerInfoKey struct{}
+
 type callerInfo struct {
 	file string
 	line int
@@ -24,7 +28,7 @@ type callerInfo struct {
 
 func getCallerInfo(evt *api.Event, needFun bool) *callerInfo {
 	var ci *callerInfo
-	v := evt.Ctx.Value("__caller_info")
+	v := evt.Ctx.Value(callerInfoKey{})
 	if v != nil {
 		ci = v.(*callerInfo)
 	}
@@ -36,7 +40,7 @@ func getCallerInfo(evt *api.Event, needFun bool) *callerInfo {
 		if !ok {
 			ci.file, ci.line = "???", 0
 		}
-		evt.Ctx = context.WithValue(evt.Ctx, "__caller_info", ci)
+		evt.Ctx = context.WithValue(evt.Ctx, callerInfoKey{}, ci)
 	}
 
 	if needFun && ci.pkg == "" {
-- 
2.43.0


From 24c4790a6489117adbd0d61338252c7d1451d7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 08/22] fix: reconfiguring a logger no longer races with
 logging

SetLevel, SetOutputs and SetCallerSkip (also called by SetConfig on loggers
in use) wrote fields that every logging goroutine reads without any lock.
---
 internal/logger.go | 50 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index 9b8bf82..967af81 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -3,6 +3,7 @@ package internal
 import (
 	"context"
 	"log"
+	"sync"
 	"time"
 
 	"github.com/xtfly/log4g/api"
@@ -20,6 +21,7 @@ type defLogger struct {
 	outputs        []api.Output // 日志的Output列表
 	callerSkip     int          // caller skip depth
 	callerInfoFlag int          //
+	lock           sync.RWMutex // guards level, outputs, callerSkip and callerInfoFlag
 
 	*defWriter
 }
@@ -78,14 +80,19 @@ func (l *defLogger) LevelEnabled(lvl api.Level) bool {
 }
 
 func (l *defLogger) SetLevel(lvl api.Level) {
+	l.lock.Lock()
 	l.level = lvl
+	l.lock.Unlock()
 }
 
 func (l *defLogger) Level() api.Level {
 	cl := l
 	for cl != nil {
-		if cl.level != api.Uninitialized {
-			return cl.level
+		cl.lock.RLock()
+		lvl := cl.level
+		cl.lock.RUnlock()
+		if lvl != api.Uninitialized {
+			return lvl
 		}
 		cl = cl.parent
 	}
@@ -93,16 +100,35 @@ func (l *defLogger) Level() api.Level {
 }
 
 func (l *defLogger) SetCallerSkip(skip int) {
+	l.lock.Lock()
 	l.callerSkip = callerSkip + skip
+	l.lock.Unlock()
 }
 
 func (l *defLogger) SetOutputs(outputs []api.Output) {
-	l.outputs = outputs
+	callerInfoFlag := ciNoneFlog
 	for _, op := range outputs {
-		if l.callerInfoFlag < op.CallerInfoFlag() {
-			l.callerInfoFlag = op.CallerInfoFlag()
+		if callerInfoFlag < op.CallerInfoFlag() {
+			callerInfoFlag = op.CallerInfoFlag()
 		}
 	}
+	l.lock.Lock()
+	l.outputs = outputs
+	l.callerInfoFlag = callerInfoFlag
+	l.lock.Unlock()
+}
+
+// getOutputs return the outputs set on the logger and their max caller info flag
+func (l *defLogger) getOutputs() ([]api.Output, int) {
+	l.lock.RLock()
+	defer l.lock.RUnlock()
+	return l.outputs, l.callerInfoFlag
+}
+
+func (l *defLogger) getCallerSkip() int {
+	l.lock.RLock()
+	defer l.lock.RUnlock()
+	return l.callerSkip
 }
 
 type defWriter struct {
@@ -164,7 +190,7 @@ func (l *defWriter) Printf(lvl api.Level, fmt string, args ...interface{}) {
 
 // printf is called directly by every logging method: callerSkip counts on it
 func (l *defWriter) printf(lvl api.Level, fmt string, args ...interface{}) {
-	l.write(l.logger.name, l.logger.callerSkip, lvl, fmt, args...)
+	l.write(l.logger.name, l.logger.getCallerSkip(), lvl, fmt, args...)
 }
 
 func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args ...interface{}) {
@@ -174,10 +200,12 @@ func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args
 
 	// without outputs of its own, a logger uses those of its nearest ancestor having some
 	owner := l.logger
-	for len(owner.outputs) == 0 && owner.parent != nil {
+	outputs, callerInfoFlag := owner.getOutputs()
+	for len(outputs) == 0 && owner.parent != nil {
 		owner = owner.parent
+		outputs, callerInfoFlag = owner.getOutputs()
 	}
-	if len(owner.outputs) == 0 {
+	if len(outputs) == 0 {
 		log.Println("Warnning: not find outputs and parent for logger " + name)
 	}
 
@@ -192,14 +220,14 @@ func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args
 		Ctx:       l.ctx,
 	}
 
-	if owner.callerInfoFlag == ciFuncFlag {
+	if callerInfoFlag == ciFuncFlag {
 		getCallerInfo(evt, true)
-	} else if owner.callerInfoFlag == ciFileFlag {
+	} else if callerInfoFlag == ciFileFlag {
 		getCallerInfo(evt, false)
 	}
 
 	// dispatch event to all outputs
-	for _, v := range owner.outputs {
+	for _, v := range outputs {
 		v.Send(evt)
 	}
 }
-- 
2.43.0


From e407f82f901415bbd8a51badd989b968a6a2913f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:52 +0000
Subject: [PATCH 09/22] fix: a logger first created as an ancestor gets its
 configuration

Only the logger asked for was configured; an ancestor created on the way was
left bare, and stayed so when it was looked up itself later.
---
 internal/logger_factory.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/logger_factory.go b/internal/logger_factory.go
index 0568d7f..d2847bf 100644
--- a/internal/logger_factory.go
+++ b/internal/logger_factory.go
@@ -31,12 +31,6 @@ func (f *factory) GetLogger(name string) api.Logger {
 	l, ok := f.loggers[name]
 	if !ok {
 		l = f.createLogger(name, f.getParent(name))
-		if ops, lvl, err := f.manager.GetLoggerOutputs(name); err != nil {
-			//log.Println("WARN: ", err)
-		} else {
-			l.SetLevel(lvl)
-			l.SetOutputs(ops)
-		}
 	}
 
 	return l
@@ -57,12 +51,18 @@ func (f *factory) getParent(name string) *defLogger {
 	return parent
 }
 
-// createLogger creates a new logger if not exist.
+// createLogger creates a new logger if not exist, with its configuration if it has one.
 func (f *factory) createLogger(name string, parent *defLogger) *defLogger {
 	l, ok := f.loggers[name]
 	if !ok {
 		l = newLogger(name)
 		l.parent = parent
+		if ops, lvl, err := f.manager.GetLoggerOutputs(name); err != nil {
+			//log.Println("WARN: ", err)
+		} else {
+			l.SetLevel(lvl)
+			l.SetOutputs(ops)
+		}
 		f.loggers[name] = l
 	}
 	return l
-- 
2.43.0


From b987e53d9d60bbdfa3c729cf90336af57b87170a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:52 +0000
Subject: [PATCH 10/22] fix: honour the number of a size with unit K, M or G

The suffix was passed to Atoi along with the number, so every size with a
unit silently became the default (10M for '1M').
---
 internal/output_rolling.go | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/internal/output_rolling.go b/internal/output_rolling.go
index 2616a44..d4cdc8c 100644
--- a/internal/output_rolling.go
+++ b/internal/output_rolling.go
@@ -2,6 +2,7 @@ package internal
 
 import (
 	"io"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -74,30 +75,23 @@ func NewRollingOutput(cfg api.CfgOutput) (o api.Output, err error) {
 
 func getMaxSize(str string) int64 {
 	if strings.HasSuffix(str, "K") {
-		size, _ := strconv.Atoi(str)
-		if size <= 0 {
-			size = 10 * 1024
-		}
-		return int64(size * 1024)
+		return parseSize(strings.TrimSuffix(str, "K"), 1024, 10*1024)
 	} else if strings.HasSuffix(str, "M") {
-		size, _ := strconv.Atoi(str)
-		if size <= 0 {
-			size = 10
-		}
-		return int64(size * 1024 * 1024)
+		return parseSize(strings.TrimSuffix(str, "M"), 1024*1024, 10)
 	} else if strings.HasSuffix(str, "G") {
-		size, _ := strconv.Atoi(str)
-		if size <= 0 {
-			size = 1
-		}
-		return int64(size * 1024 * 1024 * 1024)
+		return parseSize(strings.TrimSuffix(str, "G"), 1024*1024*1024, 1)
 	}
 
-	size, _ := strconv.Atoi(str)
-	if size <= 0 {
-		size = 10 * 1024 * 1024
+	return parseSize(str, 1, 10*1024*1024)
+}
+
+// parseSize return the number in str, or def if it is not a valid size, times unit
+func parseSize(str string, unit, def int64) int64 {
+	size, _ := strconv.ParseInt(str, 10, 64)
+	if size <= 0 || size > math.MaxInt64/unit {
+		size = def
 	}
-	return int64(size)
+	return size * unit
 }
 
 func getMaxRolls(str string) int {
-- 
2.43.0


From 3c00b5257d6c0780bdda2d363140abf249a343f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:13 +0000
Subject: [PATCH 11/22] fix: a failed roll neither loses the record nor
 disables the writer

After any failure in roll the current file was nil while the roll stayed due,
so every later write failed on closing the nil file and the record, whose
error the outputs ignore, was lost without a word.
---
 internal/output_rollingwriter.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index a6e8284..f6f7352 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -454,12 +454,15 @@ func (rw *rollingFileWriter) getFileRollName(fileName string) string {
 }
 
 func (rw *rollingFileWriter) roll() error {
-	// First, close current file.
-	err := rw.currentFile.Close()
-	if err != nil {
-		return err
+	// First, close current file. It is not usable any more even if that fails.
+	if rw.currentFile != nil {
+		err := rw.currentFile.Close()
+		rw.currentFile = nil
+		rw.currentFileSize = 0
+		if err != nil {
+			return err
+		}
 	}
-	rw.currentFile = nil
 
 	// Current history of all previous log files.
 	// For file roller it may be like this:
@@ -515,7 +518,8 @@ func (rw *rollingFileWriter) Write(bytes []byte) (n int, err error) {
 
 	if rw.self.needsToRoll() {
 		if err := rw.roll(); err != nil {
-			return 0, err
+			// Do not lose the record, go on with the current file.
+			reportInternalError(err)
 		}
 	}
 
-- 
2.43.0


From e02424fe125ccda2436bd1d1440263b69995c55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:13 +0000
Subject: [PATCH 12/22] fix: closing a rolling output closes its file

Nothing ever called the rolling writer's Close, which moreover did not take
the writer's lock and forgot neither the size nor a handle that failed to
close.
---
 internal/output_rolling.go       | 12 +++++++++++-
 internal/output_rollingwriter.go |  6 +++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/internal/output_rolling.go b/internal/output_rolling.go
index d4cdc8c..e2146e4 100644
--- a/internal/output_rolling.go
+++ b/internal/output_rolling.go
@@ -17,6 +17,15 @@ const (
 
 type rollingOutput struct {
 	api.Output
+	w io.Closer
+}
+
+// Close the output and then the file it writes to
+func (o *rollingOutput) Close() {
+	o.Output.Close()
+	if err := o.w.Close(); err != nil {
+		reportInternalError(err)
+	}
 }
 
 // NewRollingOutput return a output instance that it print message to stdio
@@ -48,7 +57,7 @@ func NewRollingOutput(cfg api.CfgOutput) (o api.Output, err error) {
 		rw.nameMode = rollingNameModePostfix
 	}
 
-	var w io.Writer
+	var w io.WriteCloser
 	switch cfg.Type() {
 	case typeRollingSize:
 		maxSize := getMaxSize(cfg["size"])
@@ -64,6 +73,7 @@ func NewRollingOutput(cfg api.CfgOutput) (o api.Output, err error) {
 		panic("not support type " + cfg.Type())
 	}
 
+	r.w = w
 	if cfg["async"] == "true" {
 		r.Output = NewAsyncOutput(w, GetThresholdLvl(cfg["threshold"]),
 			GetQueueSize(cfg["queue_size"]), GetBatchNum(cfg["batch_num"]))
diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index f6f7352..f1d60ed 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -536,12 +536,16 @@ func (rw *rollingFileWriter) Write(bytes []byte) (n int, err error) {
 }
 
 func (rw *rollingFileWriter) Close() error {
+	rw.rollLock.Lock()
+	defer rw.rollLock.Unlock()
+
 	if rw.currentFile != nil {
 		e := rw.currentFile.Close()
+		rw.currentFile = nil
+		rw.currentFileSize = 0
 		if e != nil {
 			return e
 		}
-		rw.currentFile = nil
 	}
 	return nil
 }
-- 
2.43.0


From 7242304882bfae9c698d98195f7aa618240b851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:29 +0000
Subject: [PATCH 13/22] fix: LoadConfig reports parse errors and unsupported
 types

The error was dropped and the current configuration replaced by whatever had
been parsed until then, an empty one as a rule.
---
 internal/logger_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index ac1dfa4..abf2702 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -121,6 +121,9 @@ func (m *defManager) LoadConfig(bs []byte, ext string) (err error) {
 	} else if ext == "json" {
 		err = json.Unmarshal(bs, cfg)
 	}
+	if err != nil {
+		return err
+	}
 
 	return m.setConfig(cfg)
 }
-- 
2.43.0


From 6bebb04c2340d98dc5105b65471a256b2ae2d400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:30 +0000
Subject: [PATCH 14/22] fix: LoadConfigFile no longer panics on a file name
 without extension

---
 internal/logger_manager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index abf2702..a88ab1c 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -107,8 +107,8 @@ func (m *defManager) LoadConfigFile(file string) error {
 	if err != nil {
 		return err
 	}
-	ext := path.Ext(file)
-	return m.LoadConfig(bs, ext[1:])
+	ext := strings.TrimPrefix(path.Ext(file), ".")
+	return m.LoadConfig(bs, ext)
 }
 
 func (m *defManager) LoadConfig(bs []byte, ext string) (err error) {
-- 
2.43.0


From 7e71ea09902215212fd06c73a48854681a6c654a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:30 +0000
Subject: [PATCH 15/22] fix: validation rejects duplicate loggers

The map the check looks names up in was never filled.
---
 internal/logger_manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index a88ab1c..aaa694a 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -180,6 +180,7 @@ func (m *defManager) validateConfig(cfg *api.Config) (err error) {
 				return
 			}
 		}
+		loggers[l.Name] = l
 	}
 
 	return
-- 
2.43.0


From fe24dc3b76d56ce7ab14e9a00b17ee138887695f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:31 +0000
Subject: [PATCH 16/22] fix: remove debugging output on creating a rolling
 writer

---
 internal/output_rollingwriter.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index f1d60ed..aaeabe1 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -208,7 +208,6 @@ func newRollingFileWriter(fpath string, apath string) *rollingFileWriter {
 		apath = rw.currentDirPath
 	}
 	rw.archivePath = apath
-	println(rw.archivePath)
 
 	rw.dirPerm = defaultDirectoryPermissions
 	rw.filePerm = defaultFilePermissions
-- 
2.43.0


From c6d4c1295c4f939cc4bfc0a73ff79dac7451cace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 17/22] fix: configured archiving produces archives

archivePath is a directory here, which archiveUnexplodedLogs takes for the
name of the archive file: every archive failed, and the backups it should
have held were deleted.
---
 internal/output_rolling.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/output_rolling.go b/internal/output_rolling.go
index e2146e4..4a68cb4 100644
--- a/internal/output_rolling.go
+++ b/internal/output_rolling.go
@@ -37,6 +37,7 @@ func NewRollingOutput(cfg api.CfgOutput) (o api.Output, err error) {
 	rw := newRollingFileWriter(fpath, "")
 
 	rw.archiveType = rollingArchiveNone
+	rw.archiveExploded = true // archivePath is the directory of the log
 	switch cfg["archive"] {
 	case "zip":
 		rw.archiveType = rollingArchiveZip
-- 
2.43.0


From 312cd1acef1101f8ca64ab6093f9e06c4a590734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:56 +0000
Subject: [PATCH 18/22] fix: a backup that could not be archived is not deleted

The errors of archiving were ignored and the only copy of the log deleted.
---
 internal/output_rollingwriter.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index aaeabe1..e38cd24 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -419,20 +419,23 @@ func (rw *rollingFileWriter) deleteOldRolls(history []string) error {
 	if rw.archiveType != rollingArchiveNone {
 		if rw.archiveExploded {
 			os.MkdirAll(rw.archivePath, rw.dirPerm)
-
-			// Archive logs
-			for i := 0; i < rollsToDelete; i++ {
-				rw.archiveExplodedLogs(history[i], compressionTypes[rw.archiveType])
-			}
 		} else {
 			os.MkdirAll(filepath.Dir(rw.archivePath), rw.dirPerm)
-			rw.archiveUnexplodedLogs(compressionTypes[rw.archiveType], rollsToDelete, history)
+			if err := rw.archiveUnexplodedLogs(compressionTypes[rw.archiveType], rollsToDelete, history); err != nil {
+				return err
+			}
 		}
 	}
 
 	var err error
-	// In all cases (archive files or not) the files should be deleted.
 	for i := 0; i < rollsToDelete; i++ {
+		// Never delete a file that could not be archived, the next roll tries again.
+		if rw.archiveType != rollingArchiveNone && rw.archiveExploded {
+			if err = rw.archiveExplodedLogs(history[i], compressionTypes[rw.archiveType]); err != nil {
+				reportInternalError(err)
+				continue
+			}
+		}
 		// Try best to delete files without breaking the loop.
 		if err = tryRemoveFile(filepath.Join(rw.currentDirPath, history[i])); err != nil {
 			reportInternalError(err)
-- 
2.43.0


From 19db48ba714a73b144174abed7096930d9ceed61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:21 +0000
Subject: [PATCH 19/22] fix: a time roll never overwrites an existing backup

A period that occurs twice (a pattern without a date, or the clock set back)
renamed the log over the backup of its first occurrence. The records now stay
in the current file and are rolled with the next period.
---
 internal/output_rollingwriter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index e38cd24..eee4481 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -494,6 +494,10 @@ func (rw *rollingFileWriter) roll() error {
 		rw.self.getNewHistoryRollFileName(history))
 
 	dest := filepath.Join(rw.currentDirPath, newHistoryName)
+	if _, err = os.Lstat(dest); !os.IsNotExist(err) {
+		// The period of a time pattern may come again, never overwrite its backup.
+		return fmt.Errorf("backup %s already exists", dest)
+	}
 	err = os.Rename(filepath.Join(rw.currentDirPath, rw.currentName), dest)
 	if err != nil {
 		return err
-- 
2.43.0


From 5717ee5a87734531c10d2996d62d16fe8eb4ca78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:22 +0000
Subject: [PATCH 20/22] fix: stop intercepting signals once the outputs are
 closed

Importing the library disabled SIGINT and SIGTERM for the rest of the life
of a process without handlers of its own.
---
 internal/log4g.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/log4g.go b/internal/log4g.go
index 9760f25..479a198 100644
--- a/internal/log4g.go
+++ b/internal/log4g.go
@@ -41,6 +41,8 @@ func init() {
 	go func() {
 		<-listenSig
 		gmanager.Close()
+		// do not swallow the signals which follow
+		signal.Stop(listenSig)
 	}()
 }
 
-- 
2.43.0


From af1fe6aab5cc1085c01a456f79ec11cbc020cc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:39 +0000
Subject: [PATCH 21/22] fix: a new configuration replaces changed formats and
 outputs

Instances are cached by name for ever, so a definition that changed (for
instance one overriding the default f1 or c1 already in use) was ignored.
Replaced outputs may still be in use by loggers the new configuration does not
name; they are kept until Close.
---
 internal/logger_manager.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index aaa694a..d8924bf 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"gopkg.in/yaml.v2"
 	"io/ioutil"
+	"reflect"
 	"strings"
 	"sync"
 
@@ -24,6 +25,7 @@ type defManager struct {
 	outputCreators    map[string]api.OutputFuncCreator    // key: type
 	formats           map[string]api.Formatter            // key: name
 	outputs           map[string]api.Output               // key: name
+	retired           []api.Output                        // replaced by a later config, not closed yet
 	config            *api.Config
 	cfgNotifications  []configNotification
 }
@@ -134,6 +136,7 @@ func (m *defManager) setConfig(cfg *api.Config) error {
 	}
 
 	m.Lock()
+	m.dropChanged(cfg)
 	m.config = cfg
 	m.Unlock()
 	for _, cn := range m.cfgNotifications {
@@ -142,6 +145,24 @@ func (m *defManager) setConfig(cfg *api.Config) error {
 	return nil
 }
 
+// dropChanged forgets the formats and outputs which cfg defines otherwise than the current config,
+// they will be created again when a logger needs them.
+func (m *defManager) dropChanged(cfg *api.Config) {
+	for name := range m.formats {
+		if !reflect.DeepEqual(m.config.GetCfgFormat(name), cfg.GetCfgFormat(name)) {
+			delete(m.formats, name)
+		}
+	}
+	for name, op := range m.outputs {
+		opcfg := cfg.GetCfgOutput(name)
+		_, ok := m.formats[opcfg.FormatName()]
+		if !ok || !reflect.DeepEqual(m.config.GetCfgOutput(name), opcfg) {
+			delete(m.outputs, name)
+			m.retired = append(m.retired, op)
+		}
+	}
+}
+
 func (m *defManager) validateConfig(cfg *api.Config) (err error) {
 	// check the output & format relationship in config
 
@@ -195,6 +216,10 @@ func (m *defManager) Close() {
 	for _, v := range m.outputs {
 		v.Close()
 	}
+	for _, v := range m.retired {
+		v.Close()
+	}
+	m.retired = nil
 	m.Unlock()
 }
 
-- 
2.43.0


From 9a22ab7fa0394803cf4d4bb91c48fc76312386b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:33 +0000
Subject: [PATCH 22/22] fix: unlock the manager when closing an output panics

---
 internal/logger_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index d8924bf..bd4cdf4 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -213,6 +213,7 @@ func (m *defManager) SetConfig(cfg *api.Config) error {
 
 func (m *defManager) Close() {
 	m.Lock()
+	defer m.Unlock()
 	for _, v := range m.outputs {
 		v.Close()
 	}
@@ -220,7 +221,6 @@ func (m *defManager) Close() {
 		v.Close()
 	}
 	m.retired = nil
-	m.Unlock()
 }
 
 func (m *defManager) addConfigNotify(cn configNotification) {
-- 
2.43.0

