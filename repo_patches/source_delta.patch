From 028a47e4466002008a92b9050a60fa2c847f22de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 01/57] fix: keep going in place after a tolerated failure
 (%err=ok, quiet-error) of a flow

A panic inside a flow called with '%err=ok' reset the current index to 0 (so the
sequence was re-executed from its second command, endlessly), left the call
stack unbalanced (so the invocation failed at its end), and left the subflow
unfinished in the session status file. Toleration was also ignored when the
status was not recorded, and swallowed the abort request of the user.
---
 pkg/core/model/cmd.go       | 57 ++++++++++++++++++++++++++-----------
 pkg/core/model/executing.go | 22 ++++++++++++++
 2 files changed, 62 insertions(+), 17 deletions(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index db61fae..8c03437 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -201,7 +201,16 @@ func (self *Cmd) Execute(
 		env.GetLayer(EnvLayerSession).SetInt(self.autoTimerKeys.Begin, int(begin.Unix()))
 	}
 
+	sessionEnv := env.GetLayer(EnvLayerSession)
+	stack := sessionEnv.GetRaw("sys.stack")
+	stackDepth := sessionEnv.GetRaw("sys.stack-depth")
+
 	newCurrCmdIdx, ok = self.execute(argv, cc, env, mask, flow, allowError, currCmdIdx, tryBreakInsideFileNFlow)
+	if !ok && allowError {
+		// The failed subflows didn't step out
+		sessionEnv.Set("sys.stack", stack)
+		sessionEnv.Set("sys.stack-depth", stackDepth)
+	}
 	if !ok {
 		// Normally the command should print info before return false, so no need to panic
 		// panic(NewCmdError(flow.Cmds[currCmdIdx], "command failed without detail info"))
@@ -228,6 +237,9 @@ func (self *Cmd) execute(
 	currCmdIdx int,
 	tryBreakInsideFileNFlow func(*Cli, *Env, *Cmd) bool) (newCurrCmdIdx int, succeeded bool) {
 
+	// In case of panic being recovered, move on from the current command
+	newCurrCmdIdx = currCmdIdx
+
 	// TODO: this logic should be in upper layer
 	if mask != nil && mask.OverWriteStartEnv != nil {
 		p := env
@@ -242,28 +254,37 @@ func (self *Cmd) execute(
 
 	logFilePath := self.genLogFilePath(env)
 
+	statusLevel := 0
 	if cc.FlowStatus != nil {
+		statusLevel = cc.FlowStatus.Level()
 		cc.FlowStatus.OnCmdStart(flow, currCmdIdx, env, logFilePath)
-		defer func() {
-			r := recover()
-			handledErr := false
-			var err error
-			isAbort := false
-			if r != nil {
-				handledErr = cc.HandledErrors[r]
-				err = r.(error)
-				_, isAbort = err.(*AbortByUserErr)
-			}
+	}
+	defer func() {
+		r := recover()
+		handledErr := false
+		var err error
+		isAbort := false
+		if r != nil {
+			handledErr = cc.HandledErrors[r]
+			err = r.(error)
+			_, isAbort = err.(*AbortByUserErr)
+		}
+		stopErr := r != nil && !isAbort && (self.flags.quietError || allowError)
 
-			if (r == nil || !handledErr) && !isAbort {
+		if cc.FlowStatus != nil {
+			if stopErr {
+				// The error won't go up, finish the subflows it came through
+				cc.FlowStatus.CloseFailedSubFlows(env, statusLevel)
+			}
+			if (r == nil || !handledErr || stopErr) && !isAbort {
 				cc.FlowStatus.OnCmdFinish(flow, currCmdIdx, env, succeeded, err, !shouldExecByMask(mask) && !executedAndSucceeded(mask))
 				cc.HandledErrors[r] = true
 			}
-			if r != nil && !self.flags.quietError && !allowError {
-				panic(r)
-			}
-		}()
-	}
+		}
+		if r != nil && !stopErr {
+			panic(r)
+		}
+	}()
 
 	if mask != nil && mask.OverWriteFinishEnv != nil {
 		p := env
@@ -920,6 +941,7 @@ func (self *Cmd) executeFlow(argv ArgVals, cc *Cli, env *Env, mask *ExecuteMask)
 	flowStr := FlowStrsToStr(flow)
 	flowEnv := env.NewLayer(EnvLayerSubFlow)
 	skipped := false
+	returned := false
 
 	flowStrEnvVal := flowStr
 	// TODO: calculate the min width properly
@@ -931,7 +953,7 @@ func (self *Cmd) executeFlow(argv ArgVals, cc *Cli, env *Env, mask *ExecuteMask)
 	if cc.FlowStatus != nil {
 		cc.FlowStatus.OnSubFlowStart(flowEnv, flowStr)
 		defer func() {
-			if succeeded {
+			if returned {
 				cc.FlowStatus.OnSubFlowFinish(flowEnv, succeeded, skipped)
 			}
 		}()
@@ -950,6 +972,7 @@ func (self *Cmd) executeFlow(argv ArgVals, cc *Cli, env *Env, mask *ExecuteMask)
 		succeeded = true
 		skipped = !executedAndSucceeded(mask)
 	}
+	returned = true
 	return
 }
 
diff --git a/pkg/core/model/executing.go b/pkg/core/model/executing.go
index 0bdeaea..65d2345 100644
--- a/pkg/core/model/executing.go
+++ b/pkg/core/model/executing.go
@@ -163,6 +163,28 @@ func (self *ExecutingFlow) OnSubFlowFinish(env *Env, succeeded bool, skipped boo
 	writeStatusContent(self.path, buf.String())
 }
 
+// The nesting depth of the subflow being recorded
+func (self *ExecutingFlow) Level() int {
+	return self.level
+}
+
+// Finish the failed subflows (and their callers) which are deeper than the level
+func (self *ExecutingFlow) CloseFailedSubFlows(env *Env, level int) {
+	if env.GetBool("sys.unlog-status") {
+		return
+	}
+	for self.level > level {
+		self.OnSubFlowFinish(env, false, false)
+		if self.level == level {
+			break
+		}
+		now := time.Now().Format(SessionTimeFormat)
+		content := markedOneLineContent("cmd-finish-time", self.level, now) +
+			markedOneLineContent("cmd-result", self.level, string(ExecutedResultError))
+		writeStatusContent(self.path, content)
+	}
+}
+
 func (self *ExecutingFlow) OnFlowFinish(env *Env, succeeded bool) {
 	if env.GetBool("sys.unlog-status") {
 		return
-- 
2.43.0


From ad34e86ba937256c5bc06ed7010f7f2db41f4a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 02/57] fix: run ': <cmd>' as a normal call (it was taken as a
 tail-mode call, without a session)

---
 pkg/core/execute/executor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index e4e0d61..548803f 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -382,7 +382,8 @@ func moveLastPriorityCmdToFront(
 	reordered = append([]model.ParsedCmd{last}, flow...)
 	attempTailModeCall = !last.IsPriority() && !last.AllowTailModeCall() && len(reordered) == 2
 	tailModeCall = last.AllowTailModeCall() && len(reordered) <= 2
-	doMove = true
+	// A sequence like ': <cmd>' has nothing to move across, so it's a normal call
+	doMove = len(reordered) > 1
 	return
 }
 
-- 
2.43.0


From b9e0aa1ec788b977889224c27614ff2e547cb82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 03/57] fix: stop rendering a template whose value contains its
 own key (endless loop)

---
 pkg/core/model/template.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/pkg/core/model/template.go b/pkg/core/model/template.go
index 7b6686f..52fc9a0 100644
--- a/pkg/core/model/template.go
+++ b/pkg/core/model/template.go
@@ -143,6 +143,10 @@ func tryRenderTemplate(
 	templBracketLeft := cmd.owner.Strs.FlowTemplateBracketLeft
 	templBracketRight := cmd.owner.Strs.FlowTemplateBracketRight
 
+	// The keys which are being replaced, with the length of the text behind their values
+	var openKeys []string
+	var openTails []int
+
 	findPos := 0
 	for {
 		str := in[findPos:]
@@ -156,6 +160,14 @@ func tryRenderTemplate(
 			break
 		}
 		key := tail[0:j]
+		rest := tail[j+len(templBracketRight):]
+		cyclic := false
+		for n := len(openKeys); n > 0 && findPos+i >= len(in)-openTails[n-1]; n-- {
+			openKeys, openTails = openKeys[:n-1], openTails[:n-1]
+		}
+		for _, openKey := range openKeys {
+			cyclic = cyclic || openKey == key
+		}
 		var valStr string
 		val, ok := env.GetEx(key)
 		valStr = val.Raw
@@ -167,15 +179,19 @@ func tryRenderTemplate(
 		if !ok {
 			valStr, ok = tryRenderSystemVars(key)
 		}
-		if !ok {
+		// A value which contains its own key can't be rendered
+		if !ok || cyclic {
 			hasError = true
 			if allowError {
-				findPos += j + len(templBracketRight)
+				findPos = len(in) - len(rest)
 				continue
 			}
 			templateRenderPanic(in, cmd, targetName, key, false)
 		}
-		in = in[:findPos] + str[0:i] + valStr + tail[j+len(templBracketRight):]
+		findPos += i
+		in = in[:findPos] + valStr + rest
+		openKeys = append(openKeys, key)
+		openTails = append(openTails, len(rest))
 	}
 	return in, hasError
 }
-- 
2.43.0


From 018d75fb30d74b7f246ceb318f4f670988689570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 04/57] fix: report the whole unrecognized rest of an argument
 list (its head was dropped or crashed the parser)

---
 pkg/core/parser/env.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/core/parser/env.go b/pkg/core/parser/env.go
index 9a6ce2b..dbf4db4 100644
--- a/pkg/core/parser/env.go
+++ b/pkg/core/parser/env.go
@@ -79,7 +79,8 @@ func (self *EnvParser) TryParseRaw(
 		}
 		originIdx := normalized.originIdx[normalizedIdx]
 		originStrIdx := normalized.originStrIdx[normalizedIdx]
-		return tryTrimStrings(input[originIdx:][originStrIdx:])
+		first := input[originIdx][originStrIdx:]
+		return tryTrimStrings(append([]string{first}, input[originIdx+1:]...))
 	}
 
 	// It's non-args env definition
-- 
2.43.0


From b38d2d61c33452fe333184e71bfb86c62401611f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 05/57] fix: read env files with lines longer than 64k whole
 (the rest of the file was dropped silently)

---
 pkg/core/model/proto.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/proto.go b/pkg/core/model/proto.go
index 1db1472..2434bd2 100644
--- a/pkg/core/model/proto.go
+++ b/pkg/core/model/proto.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"sort"
@@ -35,6 +36,7 @@ func EnvOutput(env *Env, writer io.Writer, sep string, filtered []string, skipDe
 
 func EnvInput(env *Env, reader io.Reader, sep string, delMark string) error {
 	scanner := bufio.NewScanner(reader)
+	scanner.Buffer(nil, math.MaxInt32)
 	scanner.Split(bufio.ScanLines)
 	for scanner.Scan() {
 		text := scanner.Text()
@@ -55,7 +57,7 @@ func EnvInput(env *Env, reader io.Reader, sep string, delMark string) error {
 		}
 	}
 
-	return nil
+	return scanner.Err()
 }
 
 func saveEnvToFile(env *Env, path string, sep string, filtered []string, skipDefault bool) {
-- 
2.43.0


From 5892d84a2c9bc4738941b7206ffcf6818977c6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 06/57] fix: don't blame a 'may-read' for an earlier satisfied
 'read' of the same env key

---
 pkg/core/model/env_ops.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/model/env_ops.go b/pkg/core/model/env_ops.go
index 859f161..681f350 100644
--- a/pkg/core/model/env_ops.go
+++ b/pkg/core/model/env_ops.go
@@ -185,7 +185,7 @@ func (self EnvOpsChecker) OnCallCmd(
 			res.Cmd = cmd.Owner()
 			if (before.val&EnvOpTypeWrite) == 0 &&
 				(before.val&EnvOpTypeMayWrite) == 0 {
-				if (before.val & EnvOpTypeRead) != 0 {
+				if (curr & EnvOpTypeRead) != 0 {
 					res.ReadNotExist = true
 				} else if (before.val & EnvOpTypeMayRead) != 0 {
 					res.MayReadNotExist = true
-- 
2.43.0


From 72a5886e931f921b773382378ae3cb3af8026edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 07/57] fix: saved env values hold the arguments of the calls
 running during the save

---
 pkg/core/model/proto.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/core/model/proto.go b/pkg/core/model/proto.go
index 2434bd2..b5e3624 100644
--- a/pkg/core/model/proto.go
+++ b/pkg/core/model/proto.go
@@ -14,7 +14,8 @@ import (
 func EnvOutput(env *Env, writer io.Writer, sep string, filtered []string, skipDefault bool) error {
 	defEnv := env.GetLayer(EnvLayerDefault)
 
-	flatten := env.Flatten(true, filtered, false)
+	// The arguments of the running commands are not env values
+	flatten := env.Flatten(true, filtered, true)
 	var keys []string
 	for k, v := range flatten {
 		if skipDefault && defEnv.GetRaw(k) == v {
@@ -25,8 +26,7 @@ func EnvOutput(env *Env, writer io.Writer, sep string, filtered []string, skipDe
 
 	sort.Strings(keys)
 	for _, k := range keys {
-		v := env.GetRaw(k)
-		_, err := fmt.Fprintf(writer, "%s%s%s\n", k, sep, v)
+		_, err := fmt.Fprintf(writer, "%s%s%s\n", k, sep, flatten[k])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From a4c754ff0790400f104ec77e6b32c53c90f51318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 08/57] fix: env saved inside a flow holds the text of the flow

---
 pkg/core/model/proto.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/core/model/proto.go b/pkg/core/model/proto.go
index b5e3624..5e36d62 100644
--- a/pkg/core/model/proto.go
+++ b/pkg/core/model/proto.go
@@ -91,6 +91,7 @@ func SaveEnvToFile(env *Env, path string, sep string, skipDefault bool) {
 		"display.executor.displayed",
 		"sys.stack",
 		"sys.stack-depth",
+		"sys.subflow",
 		"sys.session.",
 		"sys.interact",
 		"sys.breakpoint",
-- 
2.43.0


From 32b54e01fb66f589a5d3c22276446320ccd412f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 09/57] fix: an escaped separator at the end of an argument
 crashed the parser

---
 pkg/core/parser/sequence.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/core/parser/sequence.go b/pkg/core/parser/sequence.go
index cda7e53..6383c43 100644
--- a/pkg/core/parser/sequence.go
+++ b/pkg/core/parser/sequence.go
@@ -43,6 +43,8 @@ func (self *SequenceParser) Normalize(argv []string) []string {
 			//  2. this is a workaround, we also need to handle '\\', '\\\', ... things like that
 			if searchIdx >= 1 && "\\" == arg[searchIdx-1:searchIdx] {
 				arg = arg[0:searchIdx-1] + arg[searchIdx:]
+				// The separator moved one byte to the left
+				searchIdx -= 1
 				continue
 			}
 			unbreakable := false
-- 
2.43.0


From a39ca26e5f2d44d38a49f324c706e263a070ffd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:26 +0000
Subject: [PATCH 10/57] fix: the first arg of a command lost its leading '^',
 or was dropped if empty

---
 pkg/core/parser/cmd.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/core/parser/cmd.go b/pkg/core/parser/cmd.go
index 1380811..c611320 100644
--- a/pkg/core/parser/cmd.go
+++ b/pkg/core/parser/cmd.go
@@ -100,8 +100,8 @@ func (self *CmdParser) parse(
 		var err error
 		var succeeded bool
 
-		// Try to parse trivial level
-		for len(input) != 0 {
+		// Try to parse trivial level, it's a prefix of a command, not of an arg
+		for allowSub && len(input) != 0 {
 			stripped := strings.TrimLeft(input[0], "^")
 			trivialLvl += len(input[0]) - len(stripped)
 			if len(stripped) == 0 {
-- 
2.43.0


From 90b75cfe1e019041d7d93abaae9356fc9eac3505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:27 +0000
Subject: [PATCH 11/57] fix: a word between the name and the value of a system
 arg was dropped silently

---
 pkg/core/parser/env.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/core/parser/env.go b/pkg/core/parser/env.go
index dbf4db4..8f33bb8 100644
--- a/pkg/core/parser/env.go
+++ b/pkg/core/parser/env.go
@@ -139,6 +139,9 @@ func (self *EnvParser) TryParseRaw(
 		}
 	} else {
 		for ; i+2 < len(rest); i += 3 {
+			if rest[i+1] != self.kvSep {
+				return tryTrimParsedEnv(env), genResult(i)
+			}
 			value := rest[i+2]
 			key, normalized := model.SysArgRealnameAndNormalizedValue(rest[i], self.sysArgPrefix, value)
 			if len(key) != 0 {
@@ -146,7 +149,7 @@ func (self *EnvParser) TryParseRaw(
 				continue
 			}
 			key = args.Realname(rest[i])
-			if len(key) == 0 || rest[i+1] != self.kvSep {
+			if len(key) == 0 {
 				return tryTrimParsedEnv(env), genResult(i)
 			}
 			env[key] = model.NewParsedEnvArgv(rest[i], value)
-- 
2.43.0


From 832b4d45c49488085a354be12f79680b7c978463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 12/57] fix: an arg consisting of an escaped separator was
 taken for a separator

---
 pkg/core/parser/sequence.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pkg/core/parser/sequence.go b/pkg/core/parser/sequence.go
index 6383c43..d4415e4 100644
--- a/pkg/core/parser/sequence.go
+++ b/pkg/core/parser/sequence.go
@@ -23,8 +23,15 @@ func NewSequenceParser(
 }
 
 func (self *SequenceParser) Normalize(argv []string) []string {
+	res, _ := self.normalize(argv)
+	return res
+}
+
+// An escaped separator could be a whole string, so the real ones need to be told
+func (self *SequenceParser) normalize(argv []string) (res []string, sepIdxs map[int]bool) {
 	sepN := len(self.sep)
-	res := []string{}
+	res = []string{}
+	sepIdxs = map[int]bool{}
 	for _, arg := range argv {
 		if len(arg) == 0 {
 			res = append(res, arg)
@@ -71,25 +78,26 @@ func (self *SequenceParser) Normalize(argv []string) []string {
 			if handledIdx != searchIdx {
 				res = append(res, arg[handledIdx:searchIdx])
 			}
+			sepIdxs[len(res)] = true
 			res = append(res, self.sep)
 			handledIdx = searchIdx + sepN
 		}
 	}
-	return res
+	return res, sepIdxs
 }
 
 func (self *SequenceParser) Parse(argv []string) (parsed [][]string, firstIsGlobal bool) {
-	argv = self.Normalize(argv)
+	argv, sepIdxs := self.normalize(argv)
 
 	firstIsGlobal = true
-	if len(argv) != 0 && argv[0] == self.sep {
+	if sepIdxs[0] {
 		firstIsGlobal = false
 	}
 
 	parsed = [][]string{}
 	curr := []string{}
-	for _, arg := range argv {
-		if arg != self.sep {
+	for i, arg := range argv {
+		if !sepIdxs[i] {
 			arg = strings.TrimSpace(arg)
 			//if len(arg) != 0 {
 			curr = append(curr, arg)
-- 
2.43.0


From 317b8b545eea0490855153898b604a952962bf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 13/57] fix: a repo listed by more than one hub repo was added
 to hub more than once, so it couldn't be disabled

---
 pkg/mods/builtin/hub.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/mods/builtin/hub.go b/pkg/mods/builtin/hub.go
index 92a6d28..e7242e2 100644
--- a/pkg/mods/builtin/hub.go
+++ b/pkg/mods/builtin/hub.go
@@ -314,6 +314,8 @@ func UpdateHub(
 			if oldList[addr.Str()] {
 				continue
 			}
+			// A repo could be the sub-repo of many
+			oldList[addr.Str()] = true
 			repoPath := meta.GetRepoPath(path, addr)
 			infos = append(infos, meta.RepoInfo{addr, info.Addr.Str(), repoPath, helpStrs[i], "on"})
 		}
@@ -832,6 +834,8 @@ func addRepoToHubAndLoadMods(
 		if oldList[addr.Str()] {
 			continue
 		}
+		// A repo could be the sub-repo of many
+		oldList[addr.Str()] = true
 		repoPath := meta.GetRepoPath(path, addr)
 		info := meta.RepoInfo{addr, gitAddr.Str(), repoPath, helpStrs[i], "on"}
 		loadRepoMods(cc, env, info)
-- 
2.43.0


From 43eb88e44a86f4f1f1337a503c06bc472b712331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:37 +0000
Subject: [PATCH 14/57] fix: purging by the address of an enabled repo lost the
 entry of it and doubled another

---
 pkg/mods/builtin/hub.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/hub.go b/pkg/mods/builtin/hub.go
index e7242e2..502a378 100644
--- a/pkg/mods/builtin/hub.go
+++ b/pkg/mods/builtin/hub.go
@@ -647,7 +647,8 @@ func exactMatchHubRepo(infos []meta.RepoInfo, findStrs ...string) (info meta.Rep
 	}
 	for i, info := range infos {
 		if info.Addr.Str() == findStr {
-			return info, append(infos[:i], infos[i+1:]...), true
+			rest = append(rest, infos[:i]...)
+			return info, append(rest, infos[i+1:]...), true
 		}
 	}
 	return
-- 
2.43.0


From 9bd0c3806b54315ca8045b1aa0530512cf5dce99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:34 +0000
Subject: [PATCH 15/57] fix: a tab or line-break in the help string of a repo
 (or in a local path) made the hub file unreadable

---
 pkg/mods/persist/hub_meta/hub_meta.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/mods/persist/hub_meta/hub_meta.go b/pkg/mods/persist/hub_meta/hub_meta.go
index a8520be..a0e55f9 100644
--- a/pkg/mods/persist/hub_meta/hub_meta.go
+++ b/pkg/mods/persist/hub_meta/hub_meta.go
@@ -50,6 +50,14 @@ func WriteReposInfoFile(
 	path string,
 	infos []RepoInfo, sep string) {
 
+	// A field with seperators in it would make the file unreadable
+	for i, info := range infos {
+		if strings.Contains(info.Path, sep) || strings.ContainsAny(info.Path, "\n\r") {
+			panic(fmt.Errorf("[WriteReposInfoFile] path '%s' is not supported, it has tab or line-break in it", info.Path))
+		}
+		infos[i].HelpStr = strings.NewReplacer(sep, " ", "\n", " ", "\r", " ").Replace(info.HelpStr)
+	}
+
 	os.MkdirAll(filepath.Dir(path), os.ModePerm)
 	tmp := path + ".tmp"
 	file, err := os.OpenFile(tmp, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
-- 
2.43.0


From 898fb91f7c29a1c1fc413156569e7c3c2ef15cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:27 +0000
Subject: [PATCH 16/57] fix: values with quotes, backslashes, shell operators
 or line-breaks, and empty values, made saved flows broken or different

---
 pkg/core/model/flow.go   | 57 +++++++++++++++++++++++++++++-----------
 pkg/mods/builtin/flow.go |  6 +++++
 pkg/utils/misc.go        | 17 +++++-------
 3 files changed, 54 insertions(+), 26 deletions(-)

diff --git a/pkg/core/model/flow.go b/pkg/core/model/flow.go
index 5bbb3b8..85e0541 100644
--- a/pkg/core/model/flow.go
+++ b/pkg/core/model/flow.go
@@ -67,6 +67,12 @@ func SaveFlow(w io.Writer, flow *ParsedCmds, cmdPathSep string, trivialMark stri
 
 			savedEnv := false
 			useArgsFmt := (j == len(cmd.Segments)-1)
+			if useArgsFmt && seg.Matched.Cmd != nil {
+				args := seg.Matched.Cmd.Args()
+				if SaveFlowEmptyValArgs(w, seg.Env, &args, seqSep) {
+					continue
+				}
+			}
 			savedEnv = SaveFlowEnv(w, seg.Env, path, envPathSep, seqSep,
 				bracketLeft, bracketRight, envKeyValSep, useArgsFmt)
 			cmdHasEnv = cmdHasEnv || savedEnv
@@ -108,7 +114,7 @@ func SaveFlowEnv(
 			k = strings.Join(v.MatchedPath[len(prefixPath):], pathSep)
 		}
 		val := normalizeEnvVal(v.Val, seqSep)
-		kv := fmt.Sprintf("%v%s%v", k, envKeyValSep, utils.QuoteStrIfHasSpace(val))
+		kv := fmt.Sprintf("%v%s%v", k, envKeyValSep, utils.QuoteStrIfNeeded(val))
 		kvs = append(kvs, kv)
 	}
 
@@ -120,24 +126,45 @@ func SaveFlowEnv(
 	return true
 }
 
-func normalizeEnvVal(v string, seqSep string) string {
-	i := 0
-	for i < len(v) {
-		origin := i
-		i = strings.Index(v[i:], seqSep)
-		if i < 0 {
-			break
+// Empty values can't be in the 'key=value' format, they are from words-only formats: values, or key-value pairs
+func SaveFlowEmptyValArgs(w io.Writer, env ParsedEnv, args *Args, seqSep string) bool {
+	vals := map[string]string{}
+	hasEmptyVal := false
+	for _, v := range env {
+		if !v.IsArg || v.IsSysArg || len(v.MatchedPath) == 0 {
+			return false
 		}
-		i += origin
-		if i > len(BackSlash) && v[i-len(BackSlash):i] == BackSlash {
-			i += len(seqSep)
+		vals[args.Realname(v.MatchedPath[len(v.MatchedPath)-1])] = v.Val
+		hasEmptyVal = hasEmptyVal || len(v.Val) == 0
+	}
+	if !hasEmptyVal {
+		return false
+	}
+
+	usePairs := len(vals)*2 > len(args.Names())
+	words := []string{}
+	found := 0
+	for _, name := range args.Names() {
+		val, ok := vals[name]
+		if !ok {
 			continue
 		}
-		// NOTE: shellwords in 'cmd.go#FlowStrToStrs' will eat the single '\', so double '\\' is needed
-		v = v[0:i] + BackSlash + BackSlash + seqSep + v[i+len(seqSep):]
-		i += len(BackSlash)*2 + len(seqSep)
+		found += 1
+		if usePairs {
+			words = append(words, name)
+		}
+		words = append(words, utils.QuoteStrIfNeeded(normalizeEnvVal(val, seqSep)))
+	}
+	if found != len(vals) {
+		return false
 	}
-	return v
+	fmt.Fprint(w, " "+strings.Join(words, " "))
+	return true
+}
+
+// The parser removes one '\' in front of each separator
+func normalizeEnvVal(v string, seqSep string) string {
+	return strings.ReplaceAll(v, seqSep, BackSlash+seqSep)
 }
 
 // TODO: put '\' to env
diff --git a/pkg/mods/builtin/flow.go b/pkg/mods/builtin/flow.go
index 2855106..b704766 100644
--- a/pkg/mods/builtin/flow.go
+++ b/pkg/mods/builtin/flow.go
@@ -246,6 +246,7 @@ func SaveFlow(
 		return currCmdIdx, false
 	}
 
+	cmd := flow.Cmds[currCmdIdx]
 	flow.RemoveLeadingCmds(1)
 
 	if !checkAndConfirmIfFlowHasParseError(cc.Screen, flow, env) {
@@ -257,6 +258,11 @@ func SaveFlow(
 	// TODO: wrap line if too long
 	flowStr := model.SaveFlowToStr(flow, cc.Cmds.Strs.PathSep, trivialMark, env)
 
+	if strings.Contains(flowStr, "\n") {
+		// The lines of a flow file are separated commands
+		panic(model.NewCmdError(cmd, "can't save values with line-break to a flow"))
+	}
+
 	screen.Print(fmt.Sprintf(display.ColorCmd("[%s]", env)+"\n", cmdPath))
 	screen.Print("    " + display.ColorProp("- flow:", env) + "\n")
 	screen.Print("        " + display.ColorFlow(flowStr, env) + "\n")
diff --git a/pkg/utils/misc.go b/pkg/utils/misc.go
index c7838d6..45423a2 100644
--- a/pkg/utils/misc.go
+++ b/pkg/utils/misc.go
@@ -143,19 +143,14 @@ func NormalizeDurStr(durStr string) string {
 	return durStr
 }
 
-func QuoteStrIfHasSpace(str string) string {
-	if strings.IndexAny(str, " \t\r\n") < 0 {
+// The result is one word (with the same value) when it's parsed by 'shellwords'
+func QuoteStrIfNeeded(str string) string {
+	if len(str) != 0 && strings.IndexAny(str, " \t\r\n\"'`\\$();&|<>") < 0 {
 		return str
 	}
-	i := strings.Index(str, "\"")
-	if i < 0 {
-		return "\"" + str + "\""
-	}
-	i = strings.Index(str, "'")
-	if i < 0 {
-		return "'" + str + "'"
-	}
-	return str
+	str = strings.ReplaceAll(str, "\\", "\\\\")
+	str = strings.ReplaceAll(str, "\"", "\\\"")
+	return "\"" + str + "\""
 }
 
 // TODO: may not right, use PidExists to do that
-- 
2.43.0


From a8139d1e526330cebb3c6cb706294424c3dcf732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:27 +0000
Subject: [PATCH 17/57] fix: one flow with unpaired quotes and auto args made
 every invocation fail

---
 pkg/core/model/args_auto_map.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/args_auto_map.go b/pkg/core/model/args_auto_map.go
index 6a1e9e7..1ca1ee3 100644
--- a/pkg/core/model/args_auto_map.go
+++ b/pkg/core/model/args_auto_map.go
@@ -14,11 +14,26 @@ func (self Arg2EnvAutoMapCmds) AddAutoMapTarget(cmd *Cmd) {
 
 func (self Arg2EnvAutoMapCmds) AutoMapArg2Env(cc *Cli, env *Env, envOpCmds []EnvOpCmd, stackDepth int) {
 	sep := env.GetRaw("strs.cmd-path-sep")
-	for cmd, _ := range self {
+	panicRecover := env.GetBool("sys.panic.recover")
+
+	// A broken flow should not affect any other commands
+	autoMap := func(cmd *Cmd) {
+		defer func() {
+			if !panicRecover {
+				return
+			}
+			if err := recover(); err != nil {
+				cc.TolerableErrs.OnErr(err, cmd.Owner().Source(), cmd.MetaFile(), "arg2env auto mapping failed")
+			}
+		}()
 		argv := env.GetArgv(cmd.Owner().Path(), sep, stackDepth, cmd.Args())
 		autoMapArg2EnvForCmd(cc, env.Clone(), cmd, argv, envOpCmds, cmd, stackDepth)
 		cmd.FinishArg2EnvAutoMap(cc)
 	}
+
+	for cmd, _ := range self {
+		autoMap(cmd)
+	}
 }
 
 func autoMapArg2EnvForCmd(
-- 
2.43.0


From f4224f66abc010f084c230de276bde9b31d02420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 18/57] fix: renaming a saved flow overwrote an existing one
 without confirming

---
 pkg/mods/builtin/flow.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/flow.go b/pkg/mods/builtin/flow.go
index b704766..cb1d053 100644
--- a/pkg/mods/builtin/flow.go
+++ b/pkg/mods/builtin/flow.go
@@ -102,7 +102,7 @@ func RenameFlow(
 	assertNotTailMode(flow, currCmdIdx)
 
 	argSrcCmdPath, srcCmdPath, srcFilePath, _ := getFlowCmdPath(flow, currCmdIdx, true, "", argv, cc, env, true, "src")
-	argDestCmdPath, destCmdPath, destFilePath, _ := getFlowCmdPath(flow, currCmdIdx, true, "", argv, cc, env, false, "dest")
+	argDestCmdPath, destCmdPath, destFilePath, destCmdExists := getFlowCmdPath(flow, currCmdIdx, true, "", argv, cc, env, false, "dest")
 
 	_, err := os.Stat(srcFilePath)
 	if os.IsNotExist(err) {
@@ -110,6 +110,19 @@ func RenameFlow(
 			fmt.Sprintf("path '%s' does not exist", srcFilePath)))
 	}
 
+	if destFilePath != srcFilePath {
+		if fileExists(destFilePath) {
+			cc.Screen.Print(fmt.Sprintf(display.ColorTip("[confirm]", env)+
+				" flow file of '%s' exists, "+
+				"type "+display.ColorWarn("'y'", env)+" and press enter to "+
+				display.ColorWarn("overwrite:", env)+"\n", argDestCmdPath))
+			utils.UserConfirm()
+		} else if destCmdExists {
+			panic(model.NewCmdError(flow.Cmds[currCmdIdx],
+				fmt.Sprintf("cmd '%s' exists but it is not a saved flow in default place", argDestCmdPath)))
+		}
+	}
+
 	err = os.Rename(srcFilePath, destFilePath)
 	if err != nil {
 		panic(model.NewCmdError(flow.Cmds[currCmdIdx],
-- 
2.43.0


From 8ee602905605e9b4e9ab7cbc65cba022b6464d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 19/57] fix: moving saved flows to a dir overwrote the
 same-named files in it

---
 pkg/mods/builtin/hub.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/mods/builtin/hub.go b/pkg/mods/builtin/hub.go
index 502a378..e01b8e5 100644
--- a/pkg/mods/builtin/hub.go
+++ b/pkg/mods/builtin/hub.go
@@ -753,6 +753,19 @@ func moveSavedFlowsToLocalDir(toDir string, cc *model.Cli, env *model.Env, cmd m
 	flowExt := env.GetRaw("strs.flow-ext")
 	root := getFlowRoot(env, cmd)
 
+	// Do nothing if any file in the dest dir will be overwritten
+	filepath.Walk(root, func(path string, info fs.FileInfo, err error) error {
+		if err != nil || info.IsDir() || !strings.HasSuffix(path, flowExt) {
+			return nil
+		}
+		destPath := filepath.Join(toDir, filepath.Base(path))
+		if _, err := os.Lstat(destPath); err == nil {
+			panic(model.NewCmdError(cmd, fmt.Sprintf("move flow file '%s' failed: '%s' exists",
+				path, destPath)))
+		}
+		return nil
+	})
+
 	var count int
 	filepath.Walk(root, func(path string, info fs.FileInfo, err error) error {
 		if err != nil {
-- 
2.43.0


From 0f4dc13df0cf6ebbce9edf3e6000782c5ba9aa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:41 +0000
Subject: [PATCH 20/57] fix: flow.save with pack-subflow=on/yes saved a flow
 which could not be loaded well

---
 pkg/mods/builtin/flow.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/flow.go b/pkg/mods/builtin/flow.go
index cb1d053..3ce6073 100644
--- a/pkg/mods/builtin/flow.go
+++ b/pkg/mods/builtin/flow.go
@@ -227,7 +227,7 @@ func SaveFlow(
 	trivialLvl := argv.GetRaw("unfold-trivial")
 	autoArgs := argv.GetRaw("auto-args")
 	toDir := argv.GetRaw("to-dir")
-	packSub := argv.GetRaw("pack-subflow")
+	packSub := fmt.Sprintf("%v", argv.GetBool("pack-subflow"))
 
 	argCmdPath, cmdPath, filePath, cmdExists := getFlowCmdPath(flow, currCmdIdx, false, toDir, argv, cc, env, false, "new-cmd-path")
 	realCmdStr := ""
-- 
2.43.0


From be5468fd0127b46b56b4dab8049e011234d57f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:07 +0000
Subject: [PATCH 21/57] fix: args.auto naming an arg the command declares
 itself made the command lose or mix up args

---
 pkg/core/model/args_auto_map.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/core/model/args_auto_map.go b/pkg/core/model/args_auto_map.go
index 1ca1ee3..6601483 100644
--- a/pkg/core/model/args_auto_map.go
+++ b/pkg/core/model/args_auto_map.go
@@ -299,14 +299,19 @@ func (self *ArgsAutoMapStatus) FlushCache(owner *Cmd) {
 
 func (self *ArgsAutoMapStatus) reorderArgs(owner *Cmd) {
 	ownerArgs := owner.Args()
-	origin := ownerArgs.Names()[:self.originArgCnt]
 	var reorderedArgs []string
-	for _, it := range self.reorderedArgs {
-		if ownerArgs.Has(it) {
-			reorderedArgs = append(reorderedArgs, it)
+	added := map[string]bool{}
+	add := func(names []string) {
+		for _, it := range names {
+			// A definition could name an arg the command already has
+			if ownerArgs.Has(it) && !added[it] {
+				added[it] = true
+				reorderedArgs = append(reorderedArgs, it)
+			}
 		}
 	}
-	reorderedArgs = append(origin, reorderedArgs...)
+	add(ownerArgs.Names()[:self.originArgCnt])
+	add(self.reorderedArgs)
 	owner.ReorderArgs(reorderedArgs)
 }
 
-- 
2.43.0


From 5e3bfd830c1f1551b5f01f282d3a262ab9525206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:31 +0000
Subject: [PATCH 22/57] fix: result of args auto mapping of nested flows
 depended on map iterating order

---
 pkg/core/model/args_auto_map.go | 42 ++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/pkg/core/model/args_auto_map.go b/pkg/core/model/args_auto_map.go
index 6601483..e23233f 100644
--- a/pkg/core/model/args_auto_map.go
+++ b/pkg/core/model/args_auto_map.go
@@ -16,8 +16,26 @@ func (self Arg2EnvAutoMapCmds) AutoMapArg2Env(cc *Cli, env *Env, envOpCmds []Env
 	sep := env.GetRaw("strs.cmd-path-sep")
 	panicRecover := env.GetBool("sys.panic.recover")
 
+	// The result must not depend on the iterating order: a command is mapped before the ones which use it in flow
+	done := map[*Cmd]bool{}
+	var autoMap func(cmd *Cmd)
+	mapFirst := func(flow *ParsedCmds) (changed bool) {
+		for _, it := range flow.Cmds {
+			cic := it.LastCmd()
+			if cic != nil && self[cic] && !done[cic] {
+				autoMap(cic)
+				changed = true
+			}
+		}
+		return
+	}
+
 	// A broken flow should not affect any other commands
-	autoMap := func(cmd *Cmd) {
+	autoMap = func(cmd *Cmd) {
+		if done[cmd] {
+			return
+		}
+		done[cmd] = true
 		defer func() {
 			if !panicRecover {
 				return
@@ -27,11 +45,18 @@ func (self Arg2EnvAutoMapCmds) AutoMapArg2Env(cc *Cli, env *Env, envOpCmds []Env
 			}
 		}()
 		argv := env.GetArgv(cmd.Owner().Path(), sep, stackDepth, cmd.Args())
-		autoMapArg2EnvForCmd(cc, env.Clone(), cmd, argv, envOpCmds, cmd, stackDepth)
+		autoMapArg2EnvForCmd(cc, env.Clone(), cmd, argv, envOpCmds, cmd, stackDepth, mapFirst)
 		cmd.FinishArg2EnvAutoMap(cc)
 	}
 
+	var cmds []*Cmd
 	for cmd, _ := range self {
+		cmds = append(cmds, cmd)
+	}
+	sort.Slice(cmds, func(i, j int) bool {
+		return cmds[i].Owner().DisplayPath() < cmds[j].Owner().DisplayPath()
+	})
+	for _, cmd := range cmds {
 		autoMap(cmd)
 	}
 }
@@ -43,7 +68,8 @@ func autoMapArg2EnvForCmd(
 	argv ArgVals,
 	envOpCmds []EnvOpCmd,
 	targetCmd *Cmd,
-	stackDepth int) (done bool) {
+	stackDepth int,
+	mapFirst func(*ParsedCmds) bool) (done bool) {
 
 	targetCmd.GetArgsAutoMapStatus().MarkMet(srcCmd)
 	if !srcCmd.HasSubFlow(true) {
@@ -61,10 +87,13 @@ func autoMapArg2EnvForCmd(
 	}
 
 	parsedFlow := cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, subFlow...)
+	if mapFirst(parsedFlow) {
+		parsedFlow = cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, subFlow...)
+	}
 	flowEnv := env.NewLayer(EnvLayerSubFlow)
 	parsedFlow.GlobalEnv.WriteNotArgTo(flowEnv, cc.Cmds.Strs.EnvValDelAllMark)
 
-	return autoMapArg2EnvForCmdsInFlow(cc, flowEnv, parsedFlow, 0, envOpCmds, targetCmd, stackDepth)
+	return autoMapArg2EnvForCmdsInFlow(cc, flowEnv, parsedFlow, 0, envOpCmds, targetCmd, stackDepth, mapFirst)
 }
 
 func autoMapArg2EnvForCmdsInFlow(
@@ -74,7 +103,8 @@ func autoMapArg2EnvForCmdsInFlow(
 	currCmdIdx int,
 	envOpCmds []EnvOpCmd,
 	targetCmd *Cmd,
-	stackDepth int) (done bool) {
+	stackDepth int,
+	mapFirst func(*ParsedCmds) bool) (done bool) {
 
 	for i := currCmdIdx; i < len(flow.Cmds); i++ {
 		it := flow.Cmds[i]
@@ -93,7 +123,7 @@ func autoMapArg2EnvForCmdsInFlow(
 		cmdEnv, argv := it.ApplyMappingGenEnvAndArgv(env, cc.Cmds.Strs.EnvValDelAllMark,
 			cc.Cmds.Strs.PathSep, stackDepth)
 
-		if autoMapArg2EnvForCmd(cc, cmdEnv, cic, argv, envOpCmds, targetCmd, stackDepth+1) {
+		if autoMapArg2EnvForCmd(cc, cmdEnv, cic, argv, envOpCmds, targetCmd, stackDepth+1, mapFirst) {
 			return true
 		}
 
-- 
2.43.0


From d6197d1310b730f1ee4af3e830c36465684a2f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:50 +0000
Subject: [PATCH 23/57] fix: waiting for a background task failed if it's not
 the earliest one or was waited before

---
 pkg/core/model/bg_tasks.go | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/pkg/core/model/bg_tasks.go b/pkg/core/model/bg_tasks.go
index 94f7839..3b423df 100644
--- a/pkg/core/model/bg_tasks.go
+++ b/pkg/core/model/bg_tasks.go
@@ -96,17 +96,19 @@ type BgTaskInfo struct {
 
 type BgTask struct {
 	info           BgTaskInfo
+	realName       string
 	stdout         *BgStdout
 	finishNotifier chan error
 	lock           sync.Mutex
 }
 
-func NewBgTask(tid string, cmd string, stdout *BgStdout) *BgTask {
+func NewBgTask(tid string, cmd string, realName string, stdout *BgStdout) *BgTask {
 	return &BgTask{
 		info: BgTaskInfo{
 			Tid: tid,
 			Cmd: cmd,
 		},
+		realName:       realName,
 		stdout:         stdout,
 		finishNotifier: make(chan error),
 	}
@@ -137,17 +139,15 @@ func (self *BgTask) WaitForFinish() error {
 }
 
 type BgTasks struct {
-	tids      []string
-	tasks     map[string]*BgTask
-	name2task map[string]*BgTask
-	lock      sync.Mutex
+	tids  []string
+	tasks map[string]*BgTask
+	lock  sync.Mutex
 }
 
 func NewBgTasks() *BgTasks {
 	return &BgTasks{
-		tids:      []string{},
-		tasks:     map[string]*BgTask{},
-		name2task: map[string]*BgTask{},
+		tids:  []string{},
+		tasks: map[string]*BgTask{},
 	}
 }
 
@@ -159,10 +159,8 @@ func (self *BgTasks) GetOrAddTask(tid string, displayName string, realName strin
 		return task
 	}
 	self.tids = append(self.tids, tid)
-	task = NewBgTask(tid, displayName, stdout)
+	task = NewBgTask(tid, displayName, realName, stdout)
 	self.tasks[tid] = task
-	println(realName)
-	self.name2task[realName] = task
 	return task
 }
 
@@ -183,9 +181,12 @@ func (self *BgTasks) GetTaskByCmd(cmd string) (tid string, task *BgTask, ok bool
 	if len(self.tids) == 0 {
 		return
 	}
-	task, ok = self.name2task[cmd]
-	if ok {
-		tid = task.info.Tid
+	// The latest one if there are more than one
+	for i := len(self.tids) - 1; i >= 0; i-- {
+		if self.tasks[self.tids[i]].realName == cmd {
+			tid = self.tids[i]
+			return tid, self.tasks[tid], true
+		}
 	}
 	return
 }
@@ -228,10 +229,11 @@ func (self *BgTasks) RemoveTask(tid string) {
 	if len(self.tids) == 0 || !ok {
 		panic(fmt.Errorf("[BgTasks.RemoveTask] task '%s' not found", tid))
 	}
-	if self.tids[0] != tid {
-		panic(fmt.Errorf("[BgTasks.RemoveTask] removing task '%s' is not the earliest", tid))
+	for i, it := range self.tids {
+		if it == tid {
+			self.tids = append(self.tids[:i], self.tids[i+1:]...)
+			break
+		}
 	}
-	self.tids = self.tids[1:]
 	delete(self.tasks, tid)
-	// TODO: remove it from name2task
 }
-- 
2.43.0


From 2d43a1bd7702991a8ab72e30accfe6c4fb5c5c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 24/57] fix: data race on the env of a background task while
 reporting that it's scheduled (could crash the process)

---
 pkg/core/execute/executor.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index 548803f..e6aac74 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -498,6 +498,9 @@ func asyncExecute(
 
 	tidChan := make(chan string, 1)
 
+	// The env is owned by the new thread once it started
+	currThreadEnv := env.Clone()
+
 	// TODO: fixme, do real clone for ready-only instances
 	go func(
 		dur time.Duration,
@@ -575,7 +578,7 @@ func asyncExecute(
 	}(dur, argv, cc, env, flow, currCmdIdx)
 
 	tid = <-tidChan
-	screen.Print(display.ColorExplain("(current command scheduled to thread "+tid+")\n", env))
+	screen.Print(display.ColorExplain("(current command scheduled to thread "+tid+")\n", currThreadEnv))
 	return tid, true
 }
 
-- 
2.43.0


From dcfe3f158bd7becf63f4c12310fd1bedacbfa8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:04 +0000
Subject: [PATCH 25/57] fix: the exit hooks of a session were executed at the
 end of each ticat called inside it, which broke the session

---
 pkg/ticat/ticat.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ticat/ticat.go b/pkg/ticat/ticat.go
index c8b3dee..ef68624 100644
--- a/pkg/ticat/ticat.go
+++ b/pkg/ticat/ticat.go
@@ -231,6 +231,10 @@ func (ticat *TiCat) exitEventHook(hookKeyName string) (ok bool) {
 	if len(env.GetRaw("session")) == 0 {
 		return true
 	}
+	// It's not the end of the session if this ticat is called by a command in it
+	if ticat.cc.FlowStatus == nil {
+		return true
+	}
 	hookStr := env.GetRaw(hookKeyName)
 	if !(len(hookStr) != 0 && ticat.executor != nil) {
 		return true
-- 
2.43.0


From c503663fb89fdd36638d6785f3c14d7ce23d17d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:05 +0000
Subject: [PATCH 26/57] fix: the env keys in a command's path were not matched
 by their abbrs if the path itself used command abbrs

---
 pkg/core/parser/cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/parser/cmd.go b/pkg/core/parser/cmd.go
index c611320..8722e1a 100644
--- a/pkg/core/parser/cmd.go
+++ b/pkg/core/parser/cmd.go
@@ -173,7 +173,7 @@ func (self *CmdParser) parse(
 			if sub != nil {
 				curr = sub
 				if currEnvAbbrs != nil {
-					currEnvAbbrs = currEnvAbbrs.GetSub(input[0])
+					currEnvAbbrs = currEnvAbbrs.GetSub(sub.Name())
 				}
 				parsed = append(parsed, parsedSeg{parsedSegTypeCmd, model.MatchedCmd{input[0], sub}})
 				matchedCmdPath = append(matchedCmdPath, input[0])
-- 
2.43.0


From ec7aaf8e5f627b2cbdbfb609823d7c939b82876f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:13 +0000
Subject: [PATCH 27/57] fix: a saved env key with a segment which is an abbr of
 another key made every invocation of ticat fail

---
 pkg/core/execute/executor.go | 4 ++++
 pkg/core/model/env_abbr.go   | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index e6aac74..e065453 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -440,6 +440,10 @@ func useEnvAbbrs(abbrs *model.EnvAbbrs, env *model.Env, sep string) {
 	for k, _ := range env.Flatten(true, nil, true) {
 		curr := abbrs
 		for _, seg := range strings.Split(k, sep) {
+			// The segment is an abbr of another one, the abbr has its meaning already
+			if curr.IsAbbr(seg) {
+				break
+			}
 			curr = curr.GetOrAddSub(seg)
 		}
 	}
diff --git a/pkg/core/model/env_abbr.go b/pkg/core/model/env_abbr.go
index d40a378..edfa721 100644
--- a/pkg/core/model/env_abbr.go
+++ b/pkg/core/model/env_abbr.go
@@ -119,6 +119,11 @@ func (self *EnvAbbrs) GetSub(name string) *EnvAbbrs {
 	return sub
 }
 
+func (self *EnvAbbrs) IsAbbr(name string) bool {
+	realname, ok := self.subAbbrsRevIdx[name]
+	return ok && realname != name
+}
+
 func (self *EnvAbbrs) Path() []string {
 	if self.parent == nil {
 		return []string{}
-- 
2.43.0


From 28baf56ead14905d09e975199e184fef6aba8b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:41 +0000
Subject: [PATCH 28/57] fix: env values set under a command path could get lost
 if the path plus one key is the same as another key

---
 pkg/core/model/parsing.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/parsing.go b/pkg/core/model/parsing.go
index daedb31..eb8ab44 100644
--- a/pkg/core/model/parsing.go
+++ b/pkg/core/model/parsing.go
@@ -385,6 +385,10 @@ func (self ParsedEnv) AddPrefix(prefix []string, sep string) {
 	}
 
 	prefixPath := strings.Join(prefix, sep) + sep
+	// A prefixed key could be the same as another key, so remove the old ones before adding any
+	for _, k := range keys {
+		delete(self, k)
+	}
 	for i, k := range keys {
 		v := vals[i]
 
@@ -395,7 +399,6 @@ func (self ParsedEnv) AddPrefix(prefix []string, sep string) {
 		}
 		matchedPath := append(prefixClone, v.MatchedPath...)
 		self[prefixPath+k] = ParsedEnvVal{v.Val, v.IsArg, v.IsSysArg, matchedPath, strings.Join(matchedPath, sep)}
-		delete(self, k)
 		v = self[prefixPath+k]
 
 		// If not deep copy, the v.MatchedPath will be the last value of this loop
-- 
2.43.0


From 098c8f0543cfd27193cfc23777656d583c320ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:38 +0000
Subject: [PATCH 29/57] fix: an empty or unreadable help file made every
 invocation of ticat fail

---
 pkg/core/model/helps.go |  3 +++
 pkg/mods/builtin/mod.go | 15 ++++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/helps.go b/pkg/core/model/helps.go
index 0d7be08..c7652c7 100644
--- a/pkg/core/model/helps.go
+++ b/pkg/core/model/helps.go
@@ -33,6 +33,9 @@ func (self *Helps) RegHelpFile(path string) {
 		lines = append(lines, scanner.Text())
 	}
 
+	if len(lines) == 0 {
+		return
+	}
 	self.RegHelp(lines[0], lines[1:])
 }
 
diff --git a/pkg/mods/builtin/mod.go b/pkg/mods/builtin/mod.go
index 0482ded..3a17dd7 100644
--- a/pkg/mods/builtin/mod.go
+++ b/pkg/mods/builtin/mod.go
@@ -58,7 +58,7 @@ func loadLocalMods(
 		}
 
 		if strings.HasSuffix(metaPath, helpExt) {
-			cc.Helps.RegHelpFile(metaPath)
+			regHelpFile(cc, metaPath, source, panicRecover)
 			return nil
 		}
 
@@ -101,3 +101,16 @@ func loadLocalMods(
 		return nil
 	})
 }
+
+func regHelpFile(cc *model.Cli, path string, source string, panicRecover bool) {
+	defer func() {
+		if !panicRecover {
+			return
+		}
+		if err := recover(); err != nil {
+			cc.TolerableErrs.OnErr(err, source, path, "help file loading failed")
+		}
+	}()
+
+	cc.Helps.RegHelpFile(path)
+}
-- 
2.43.0


From 1a034c6da87eeebb04a92c0f903254a00c56629f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:58 +0000
Subject: [PATCH 30/57] fix: retrying a session with env-only calls or dirs in
 it ran succeeded commands again and skipped others

---
 pkg/core/execute/executor.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index e065453..5104be4 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -191,12 +191,17 @@ func (self *Executor) executeFlow(
 	input []string) bool {
 
 	breakAtNext := false
+	maskIdx := 0
 	for i := 0; i < len(flow.Cmds); i++ {
 		cmd := flow.Cmds[i]
 		var succeeded bool
 		var mask *model.ExecuteMask
-		if i < len(masks) {
-			mask = masks[i]
+		// Commands without executable (eg: an env definition) are not recorded, so there is no mask for them
+		if last := cmd.LastCmdNode(); last != nil && !last.IsNoExecutableCmd() {
+			if maskIdx < len(masks) {
+				mask = masks[maskIdx]
+			}
+			maskIdx += 1
 		}
 		cmdEnv := env
 		if cc.ForestMode.AtForestTopLvl(env) {
-- 
2.43.0


From 68429f241ac4d0ddf573ae77a97c9dcddad58f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:58 +0000
Subject: [PATCH 31/57] fix: a saved flow of one command with its own env set
 that env globally

---
 pkg/core/model/flow.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pkg/core/model/flow.go b/pkg/core/model/flow.go
index 85e0541..eb1ff40 100644
--- a/pkg/core/model/flow.go
+++ b/pkg/core/model/flow.go
@@ -28,14 +28,12 @@ func SaveFlow(w io.Writer, flow *ParsedCmds, cmdPathSep string, trivialMark stri
 	}
 
 	for i, cmd := range flow.Cmds {
-		if len(flow.Cmds) > 1 {
-			if i == 0 {
-				if flow.GlobalCmdIdx < 0 {
-					fmt.Fprint(w, seqSep+" ")
-				}
-			} else {
-				fmt.Fprint(w, " "+seqSep+" ")
+		if i == 0 {
+			if flow.GlobalCmdIdx < 0 {
+				fmt.Fprint(w, seqSep+" ")
 			}
+		} else {
+			fmt.Fprint(w, " "+seqSep+" ")
 		}
 
 		if cmd.ParseResult.Error != nil {
-- 
2.43.0


From 75ea9c507321608d6bf0bd1c3fb1a75e1fa929f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:58 +0000
Subject: [PATCH 32/57] fix: retrying a session ran its succeeded background
 commands again

---
 pkg/core/model/executed.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/core/model/executed.go b/pkg/core/model/executed.go
index db692b3..c0594f4 100644
--- a/pkg/core/model/executed.go
+++ b/pkg/core/model/executed.go
@@ -130,6 +130,11 @@ func ParseExecutedFlow(path ExecutedStatusFilePath) (lastActiveTs time.Time, exe
 
 func (self *ExecutedFlow) GenExecMasks() (masks []*ExecuteMask) {
 	for _, cmd := range self.Cmds {
+		if cmd.IsDelay && cmd.SubFlow != nil && len(cmd.SubFlow.Cmds) == 1 {
+			// The subflow of a delayed command is the record of its executing
+			masks = append(masks, cmd.SubFlow.GenExecMasks()...)
+			continue
+		}
 		var subMasks []*ExecuteMask
 		if cmd.SubFlow != nil {
 			subMasks = cmd.SubFlow.GenExecMasks()
-- 
2.43.0


From 545e6dc8d5321a47ed111a813b66f16dbe17749b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:00 +0000
Subject: [PATCH 33/57] fix: retrying a session which retried another one was
 endless or failed on quoted values

---
 pkg/core/model/cmd.go        |  8 +++++++-
 pkg/mods/builtin/sessions.go | 15 ++++++++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index 8c03437..e50c31d 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -10,6 +10,8 @@ import (
 	"time"
 
 	"github.com/mattn/go-shellwords"
+
+	"github.com/innerr/ticat/pkg/utils"
 )
 
 type CmdType string
@@ -951,7 +953,11 @@ func (self *Cmd) executeFlow(argv ArgVals, cc *Cli, env *Env, mask *ExecuteMask)
 	flowEnv.Set("sys.subflow", flowStrEnvVal)
 
 	if cc.FlowStatus != nil {
-		cc.FlowStatus.OnSubFlowStart(flowEnv, flowStr)
+		words := make([]string, len(flow))
+		for i, word := range flow {
+			words[i] = utils.QuoteStrIfNeeded(word)
+		}
+		cc.FlowStatus.OnSubFlowStart(flowEnv, FlowStrsToStr(words))
 		defer func() {
 			if returned {
 				cc.FlowStatus.OnSubFlowFinish(flowEnv, succeeded, skipped)
diff --git a/pkg/mods/builtin/sessions.go b/pkg/mods/builtin/sessions.go
index 5dbeb18..1d475e5 100644
--- a/pkg/mods/builtin/sessions.go
+++ b/pkg/mods/builtin/sessions.go
@@ -693,7 +693,20 @@ func retrySession(session model.SessionStatus, errSessionOnly bool) (flow []stri
 	if errSessionOnly && session.Status != nil && session.Status.Result == model.ExecutedResultSucceeded {
 		panic(fmt.Errorf("session [%s] had succeeded, nothing to retry", session.DirName))
 	}
-	return []string{session.Status.Flow}, session.Status.GenExecMasks(), true
+	status := session.Status
+	// If the session was a retrying of another one, carry on with the flow it retried
+	for len(status.Cmds) == 1 && status.Cmds[0].SubFlow != nil && isRetryCmd(status.Cmds[0].Cmd) {
+		status = status.Cmds[0].SubFlow
+	}
+	return []string{status.Flow}, status.GenExecMasks(), true
+}
+
+func isRetryCmd(cmd string) bool {
+	switch cmd {
+	case "sessions.retry", "sessions.last.retry", "sessions.error.retry":
+		return true
+	}
+	return false
 }
 
 func normalizeSid(id string) string {
-- 
2.43.0


From 05362126e9435f3ce0b8cfd9a487ba3a660a19bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:01 +0000
Subject: [PATCH 34/57] fix: the global env and the auto args of a retried
 session were handled as the ones of a sub flow

---
 pkg/core/model/cmd.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index e50c31d..80bd467 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -941,7 +941,16 @@ func (self *Cmd) executePowerCmd(
 func (self *Cmd) executeFlow(argv ArgVals, cc *Cli, env *Env, mask *ExecuteMask) (succeeded bool) {
 	flow, masks, _ := self.Flow(argv, cc, env, false, false)
 	flowStr := FlowStrsToStr(flow)
-	flowEnv := env.NewLayer(EnvLayerSubFlow)
+	flowEnv := env
+	if len(masks) == 0 {
+		flowEnv = env.NewLayer(EnvLayerSubFlow)
+	} else {
+		// It's the retrying of a whole session, the global env of the flow belongs to the session layer,
+		// and the commands of it are the top level ones
+		sessionEnv := env.GetLayer(EnvLayerSession)
+		sessionEnv.PlusInt("sys.stack-depth", -1)
+		defer sessionEnv.PlusInt("sys.stack-depth", 1)
+	}
 	skipped := false
 	returned := false
 
-- 
2.43.0


From fb3c4ed53f50001d52fc4e0c26e8120d5094389a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:02 +0000
Subject: [PATCH 35/57] fix: a retried session ran with env values it had not
 when it broke

---
 pkg/core/model/cmd.go       | 63 ++++++++++++++++++++++++-------------
 pkg/core/model/executing.go |  9 ++++--
 2 files changed, 49 insertions(+), 23 deletions(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index 80bd467..45f6a68 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -243,15 +243,10 @@ func (self *Cmd) execute(
 	newCurrCmdIdx = currCmdIdx
 
 	// TODO: this logic should be in upper layer
-	if mask != nil && mask.OverWriteStartEnv != nil {
-		p := env
-		for p != nil && p.LayerType() != EnvLayerSession {
-			p.CleanCurrLayer()
-			p = p.Parent()
-		}
-		if p != nil {
-			mask.OverWriteStartEnv.WriteCurrLayerTo(p)
-		}
+	var notRecorded map[string]string
+	if mask != nil && mask.ExecutedCmd != nil {
+		restoreRecordedEnv(env, mask.OverWriteStartEnv)
+		notRecorded = keysNotInEnv(recordedViewOfEnv(env), mask.OverWriteStartEnv)
 	}
 
 	logFilePath := self.genLogFilePath(env)
@@ -288,17 +283,6 @@ func (self *Cmd) execute(
 		}
 	}()
 
-	if mask != nil && mask.OverWriteFinishEnv != nil {
-		p := env
-		for p != nil && p.LayerType() != EnvLayerSession {
-			p.CleanCurrLayer()
-			p = p.Parent()
-		}
-		if p != nil {
-			mask.OverWriteFinishEnv.WriteCurrLayerTo(p)
-		}
-	}
-
 	disableQuietKey := "display.executor"
 	envSession := env.GetLayer(EnvLayerSession)
 	originQuiet := envSession.GetRaw(disableQuietKey)
@@ -310,6 +294,17 @@ func (self *Cmd) execute(
 	newCurrCmdIdx, succeeded = self.executeByType(argv, cc, env, mask, flow,
 		allowError, currCmdIdx, logFilePath, tryBreakInsideFileNFlow)
 
+	if mask != nil && mask.ExecutedCmd != nil && executedAndSucceeded(mask) &&
+		(mask.ExecPolicy == ExecPolicySkip || mask.FileNFlowExecPolicy == ExecPolicySkip) {
+		// The command was skipped because it's executed before, what it did to the env is in the record
+		for k, _ := range keysNotInEnv(recordedViewOfEnv(env), mask.OverWriteFinishEnv) {
+			if _, ok := notRecorded[k]; !ok {
+				env.Delete(k)
+			}
+		}
+		restoreRecordedEnv(env, mask.OverWriteFinishEnv)
+	}
+
 	if shouldQuietSubFlow {
 		envSession.Set(disableQuietKey, originQuiet)
 	}
@@ -1120,5 +1115,31 @@ func shouldExecByMask(mask *ExecuteMask) bool {
 }
 
 func executedAndSucceeded(mask *ExecuteMask) bool {
-	return (mask != nil || mask.ResultIfExecuted == ExecutedResultSucceeded)
+	return (mask != nil && mask.ResultIfExecuted == ExecutedResultSucceeded)
+}
+
+// Make the values in the env the same as the recorded ones.
+// The values which are already the same stay in the layers they are in
+func restoreRecordedEnv(env *Env, recorded *Env) {
+	if recorded == nil {
+		return
+	}
+	curr := recordedViewOfEnv(env)
+	for k, v := range recorded.pairs {
+		if val, ok := curr[k]; ok && val == v.Raw {
+			continue
+		}
+		env.DeleteEx(k, EnvLayerSession)
+		env.GetLayer(EnvLayerSession).Set(k, v.Raw)
+	}
+}
+
+func keysNotInEnv(kvs map[string]string, env *Env) map[string]string {
+	res := map[string]string{}
+	for k, v := range kvs {
+		if env == nil || !env.Has(k) {
+			res[k] = v
+		}
+	}
+	return res
 }
diff --git a/pkg/core/model/executing.go b/pkg/core/model/executing.go
index 65d2345..cb203cc 100644
--- a/pkg/core/model/executing.go
+++ b/pkg/core/model/executing.go
@@ -204,7 +204,8 @@ func (self *ExecutingFlow) OnFlowFinish(env *Env, succeeded bool) {
 	writeStatusContent(self.path, buf.String())
 }
 
-func writeCmdEnv(w io.Writer, env *Env, mark string, level int) {
+// The part of env which will be recorded for a command
+func recordedViewOfEnv(env *Env) map[string]string {
 	envPathSep := env.GetRaw("strs.env-path-sep")
 	// TODO: put these into config or env.key's prop
 	filterPrefixs := []string{
@@ -214,7 +215,11 @@ func writeCmdEnv(w io.Writer, env *Env, mark string, level int) {
 		"sys" + envPathSep,
 	}
 
-	kvs := env.Flatten(false, filterPrefixs, true)
+	return env.Flatten(false, filterPrefixs, true)
+}
+
+func writeCmdEnv(w io.Writer, env *Env, mark string, level int) {
+	kvs := recordedViewOfEnv(env)
 	buf := bytes.NewBuffer(nil)
 	indent := strings.Repeat(StatusFileIndent, level)
 	for k, v := range kvs {
-- 
2.43.0


From 58d6fd00a150c039da30959af4829cd4ecf91b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:41 +0000
Subject: [PATCH 36/57] fix: a sequence starting with a no-session command had
 no session, which its other commands need

---
 pkg/core/execute/cmd_type.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/core/execute/cmd_type.go b/pkg/core/execute/cmd_type.go
index ac86176..aabf99a 100644
--- a/pkg/core/execute/cmd_type.go
+++ b/pkg/core/execute/cmd_type.go
@@ -89,13 +89,23 @@ func allowParseError(flow *model.ParsedCmds) bool {
 	return false
 }
 
+func needSession(cmds []model.ParsedCmd) bool {
+	for _, it := range cmds {
+		cmd := it.LastCmdNode()
+		if cmd != nil && !cmd.IsNoExecutableCmd() && !cmd.Cmd().IsNoSessionCmd() {
+			return true
+		}
+	}
+	return false
+}
+
 func noSessionCmds(flow *model.ParsedCmds) bool {
 	if len(flow.Cmds) == 0 {
 		return true
 	}
 	cmd := flow.Cmds[0].LastCmdNode()
 
-	if cmd != nil && cmd.Cmd() != nil && cmd.Cmd().IsNoSessionCmd() {
+	if cmd != nil && cmd.Cmd() != nil && cmd.Cmd().IsNoSessionCmd() && !needSession(flow.Cmds[1:]) {
 		return true
 	}
 
-- 
2.43.0


From f45867460fb8452068d2718db9cbb74e52be0aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:41 +0000
Subject: [PATCH 37/57] fix: session commands crashed if there was no session
 yet

---
 pkg/core/model/session.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/core/model/session.go b/pkg/core/model/session.go
index d333351..0f652c0 100644
--- a/pkg/core/model/session.go
+++ b/pkg/core/model/session.go
@@ -42,8 +42,8 @@ func ListSessions(
 	}
 
 	entrys, err := os.ReadDir(sessionsRoot)
-	if err != nil {
-		panic(fmt.Sprintf("[ListSessions] can't read sessions' root path '%s'\n", sessionsRoot))
+	if err != nil && !os.IsNotExist(err) {
+		panic(fmt.Errorf("[ListSessions] can't read sessions' root path '%s': %v", sessionsRoot, err))
 	}
 	dirs := make([]string, len(entrys))
 	for i, it := range entrys {
@@ -115,8 +115,8 @@ func CleanSessions(env *Env) (cleaned uint, runnings uint) {
 	}
 
 	dirs, err := os.ReadDir(sessionsRoot)
-	if err != nil {
-		panic(fmt.Sprintf("[ListSessions] can't read sessions' root path '%s'\n", sessionsRoot))
+	if err != nil && !os.IsNotExist(err) {
+		panic(fmt.Errorf("[CleanSessions] can't read sessions' root path '%s': %v", sessionsRoot, err))
 	}
 
 	for _, dir := range dirs {
-- 
2.43.0


From 46b14da97141b5103a5a3c8a565b7f130130eb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:41 +0000
Subject: [PATCH 38/57] fix: removing sessions by keywords only removed the
 newest matched one

---
 pkg/mods/builtin/sessions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/sessions.go b/pkg/mods/builtin/sessions.go
index 1d475e5..bece89d 100644
--- a/pkg/mods/builtin/sessions.go
+++ b/pkg/mods/builtin/sessions.go
@@ -339,7 +339,7 @@ func FindAndRemoveSessions(
 	force := argv.GetBool("remove-running")
 
 	findStrs := getFindStrsFromArgvAndFlow(flow, currCmdIdx, argv)
-	sessions, _ := findSessions(findStrs, "", cc, env, 1, true, true, true)
+	sessions, _ := findSessions(findStrs, "", cc, env, 0, true, true, true)
 	if len(sessions) == 0 {
 		return currCmdIdx, true
 	}
-- 
2.43.0


From 9907e07a11b4a7dbf7ceebf02141e694a8575cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:41 +0000
Subject: [PATCH 39/57] fix: the last session was not found if 16 newer ones
 were not qualified

---
 pkg/mods/builtin/sessions.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pkg/mods/builtin/sessions.go b/pkg/mods/builtin/sessions.go
index bece89d..1354fc7 100644
--- a/pkg/mods/builtin/sessions.go
+++ b/pkg/mods/builtin/sessions.go
@@ -650,13 +650,19 @@ func descSession(session model.SessionStatus, argv model.ArgVals, cc *model.Cli,
 func getLastSession(cc *model.Cli, env *model.Env, includeError bool, includeDone bool,
 	includeRunning bool) (session model.SessionStatus, ok bool) {
 
-	var sessions []model.SessionStatus
-	currSession := env.GetRaw("sys.session.id")
 	cntLimit := 16
-	if len(currSession) == 0 {
-		cntLimit = 1
+	sessions, _ := model.ListSessions(env, nil, "", cntLimit, includeError, includeDone, includeRunning)
+	session, ok = pickLastSession(cc, env, sessions)
+	if !ok && len(sessions) >= cntLimit {
+		// All the newest ones are not qualified, check the older ones
+		sessions, _ = model.ListSessions(env, nil, "", 0, includeError, includeDone, includeRunning)
+		session, ok = pickLastSession(cc, env, sessions)
 	}
-	sessions, _ = model.ListSessions(env, nil, "", cntLimit, includeError, includeDone, includeRunning)
+	return
+}
+
+func pickLastSession(cc *model.Cli, env *model.Env, sessions []model.SessionStatus) (session model.SessionStatus, ok bool) {
+	currSession := env.GetRaw("sys.session.id")
 	for i := len(sessions) - 1; i >= 0; i-- {
 		session := sessions[i]
 		if session.Status == nil {
-- 
2.43.0


From 124e10c834cb4a82ac662c5d4a3626c853ec1070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:26 +0000
Subject: [PATCH 40/57] fix: a saved flow was lost if overwriting it was broken
 off

---
 pkg/mods/persist/meta_file/meta_file.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/pkg/mods/persist/meta_file/meta_file.go b/pkg/mods/persist/meta_file/meta_file.go
index 6ae526d..82bccf6 100644
--- a/pkg/mods/persist/meta_file/meta_file.go
+++ b/pkg/mods/persist/meta_file/meta_file.go
@@ -1,6 +1,7 @@
 package meta_file
 
 import (
+	"bufio"
 	"bytes"
 	"fmt"
 	"io"
@@ -247,13 +248,28 @@ func (self *MetaFile) parse(lines []string) {
 }
 
 func (self *MetaFile) Save() {
-	file, err := os.OpenFile(self.path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
+	// A broken-off saving must not damage the old file
+	tmp := self.path + ".tmp"
+	file, err := os.OpenFile(tmp, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		panic(fmt.Errorf("[MetaFile.Save] open mod meta file '%s' for save failed: %v",
-			self.path, err))
+			tmp, err))
 	}
 	defer file.Close()
-	self.save(file)
+
+	writer := bufio.NewWriter(file)
+	self.save(writer)
+	err = writer.Flush()
+	if err != nil {
+		panic(fmt.Errorf("[MetaFile.Save] write mod meta file '%s' failed: %v", tmp, err))
+	}
+	file.Close()
+
+	err = os.Rename(tmp, self.path)
+	if err != nil {
+		panic(fmt.Errorf("[MetaFile.Save] rename mod meta file '%s' to '%s' failed: %v",
+			tmp, self.path, err))
+	}
 }
 
 func (self *MetaFile) save(w io.Writer) {
-- 
2.43.0


From 0bee6a3e1dbe1077a3e7b7a74303b836415ad530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:30 +0000
Subject: [PATCH 41/57] fix: forest-mode was lost when a forest flow's failure
 was tolerated, or in nested frames of one name

---
 pkg/core/model/cmd.go       |  2 ++
 pkg/core/model/forest.go    | 28 ++++++++++++++++++++++++----
 pkg/mods/builtin/blender.go |  2 +-
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index 45f6a68..8fa3e04 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -206,12 +206,14 @@ func (self *Cmd) Execute(
 	sessionEnv := env.GetLayer(EnvLayerSession)
 	stack := sessionEnv.GetRaw("sys.stack")
 	stackDepth := sessionEnv.GetRaw("sys.stack-depth")
+	forestDepth := cc.ForestMode.Depth()
 
 	newCurrCmdIdx, ok = self.execute(argv, cc, env, mask, flow, allowError, currCmdIdx, tryBreakInsideFileNFlow)
 	if !ok && allowError {
 		// The failed subflows didn't step out
 		sessionEnv.Set("sys.stack", stack)
 		sessionEnv.Set("sys.stack-depth", stackDepth)
+		cc.ForestMode.Restore(forestDepth)
 	}
 	if !ok {
 		// Normally the command should print info before return false, so no need to panic
diff --git a/pkg/core/model/forest.go b/pkg/core/model/forest.go
index 625ace3..d3c52cf 100644
--- a/pkg/core/model/forest.go
+++ b/pkg/core/model/forest.go
@@ -13,14 +13,14 @@ func NewForestMode() *ForestMode {
 }
 
 func (self ForestMode) AtForestTopLvl(env *Env) bool {
-	return len(self.stack) != 0 && self.stack[len(self.stack)-1] == GetLastStackFrame(env)
+	return len(self.stack) != 0 && self.stack[len(self.stack)-1] == forestFrame(env)
 }
 
 func (self *ForestMode) Pop(env *Env) {
 	if len(self.stack) == 0 {
 		panic(fmt.Errorf("[Forest] should never happen: pop on empty"))
 	}
-	last1 := GetLastStackFrame(env)
+	last1 := forestFrame(env)
 	last2 := self.stack[len(self.stack)-1]
 	if last1 != last2 {
 		panic(fmt.Errorf("[Forest] should never happen: pop on wrong frame: %s != %s", last1, last2))
@@ -28,8 +28,19 @@ func (self *ForestMode) Pop(env *Env) {
 	self.stack = self.stack[0 : len(self.stack)-1]
 }
 
-func (self *ForestMode) Push(frame string) {
-	self.stack = append(self.stack, frame)
+func (self *ForestMode) Push(env *Env) {
+	self.stack = append(self.stack, forestFrame(env))
+}
+
+func (self *ForestMode) Depth() int {
+	return len(self.stack)
+}
+
+// Leave the frames which were aborted, so they didn't pop
+func (self *ForestMode) Restore(depth int) {
+	if depth < len(self.stack) {
+		self.stack = self.stack[0:depth]
+	}
 }
 
 func (self *ForestMode) Clone() *ForestMode {
@@ -39,3 +50,12 @@ func (self *ForestMode) Clone() *ForestMode {
 	}
 	return &ForestMode{stack}
 }
+
+// The last frame with all its callers, the name of a frame may appear more than once in a stack
+func forestFrame(env *Env) string {
+	stack := env.GetRaw("sys.stack")
+	if len(stack) == 0 {
+		panic(fmt.Errorf("[Forest] should never happen: no stack"))
+	}
+	return stack
+}
diff --git a/pkg/mods/builtin/blender.go b/pkg/mods/builtin/blender.go
index ecc6c33..2ab26d8 100644
--- a/pkg/mods/builtin/blender.go
+++ b/pkg/mods/builtin/blender.go
@@ -14,7 +14,7 @@ func SetForestMode(
 	assertNotTailMode(flow, currCmdIdx)
 
 	if !cc.ForestMode.AtForestTopLvl(env) {
-		cc.ForestMode.Push(model.GetLastStackFrame(env))
+		cc.ForestMode.Push(env)
 	}
 	return currCmdIdx, true
 }
-- 
2.43.0


From 1a792d170552ba5b9f6775b0c4094a75a6e16847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:01 +0000
Subject: [PATCH 42/57] fix: join.run went on after its command failed quietly
 or could not be found

---
 pkg/mods/builtin/join.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/mods/builtin/join.go b/pkg/mods/builtin/join.go
index 92aabcf..a37ad67 100644
--- a/pkg/mods/builtin/join.go
+++ b/pkg/mods/builtin/join.go
@@ -117,8 +117,10 @@ func JoinRun(
 		for i, key := range keys {
 			args = append(args, key+"="+vals[i])
 		}
-		cc.Executor.Execute(flow.Cmds[currCmdIdx].DisplayPath(cc.Cmds.Strs.PathSep, false),
-			true, cc, env, nil, args...)
+		if !cc.Executor.Execute(flow.Cmds[currCmdIdx].DisplayPath(cc.Cmds.Strs.PathSep, false),
+			true, cc, env, nil, args...) {
+			return currCmdIdx, false
+		}
 		if !iter.next() {
 			break
 		}
-- 
2.43.0


From f78504edcf4d0b26ad3076df7590bd4b823c877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:23 +0000
Subject: [PATCH 43/57] fix: join.new never ended on a range without positive
 step, and took a wrong number as 0

---
 pkg/mods/builtin/join.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/pkg/mods/builtin/join.go b/pkg/mods/builtin/join.go
index a37ad67..c460194 100644
--- a/pkg/mods/builtin/join.go
+++ b/pkg/mods/builtin/join.go
@@ -49,17 +49,20 @@ func JoinNew(
 			endStr = val[j+1 : len(val)-1]
 			stepStr = "1"
 		}
+		startStr, endStr, stepStr = strings.TrimSpace(startStr), strings.TrimSpace(endStr), strings.TrimSpace(stepStr)
 		if strings.Contains(val, ".") {
-			start, _ := strconv.ParseFloat(startStr, 64)
-			end, _ := strconv.ParseFloat(endStr, 64)
-			step, _ := strconv.ParseFloat(stepStr, 64)
+			start, err1 := strconv.ParseFloat(startStr, 64)
+			end, err2 := strconv.ParseFloat(endStr, 64)
+			step, err3 := strconv.ParseFloat(stepStr, 64)
+			assertJoinRange(flow.Cmds[currCmdIdx], val, step > 0, err1, err2, err3)
 			for ; start <= end; start += step {
 				vals = append(vals, fmt.Sprintf("%f", start))
 			}
 		} else {
-			start, _ := strconv.Atoi(startStr)
-			end, _ := strconv.Atoi(endStr)
-			step, _ := strconv.Atoi(stepStr)
+			start, err1 := strconv.Atoi(startStr)
+			end, err2 := strconv.Atoi(endStr)
+			step, err3 := strconv.Atoi(stepStr)
+			assertJoinRange(flow.Cmds[currCmdIdx], val, step > 0, err1, err2, err3)
 			for ; start <= end; start += step {
 				vals = append(vals, strconv.Itoa(start))
 			}
@@ -128,6 +131,18 @@ func JoinRun(
 	return currCmdIdx, true
 }
 
+// A range with a bad number would be endless or have unexpected values
+func assertJoinRange(cmd model.ParsedCmd, val string, validStep bool, errs ...error) {
+	for _, err := range errs {
+		if err != nil {
+			panic(model.NewCmdError(cmd, fmt.Sprintf("invalid range '%s': %s", val, err.Error())))
+		}
+	}
+	if !validStep {
+		panic(model.NewCmdError(cmd, fmt.Sprintf("invalid range '%s': the step should be positive", val)))
+	}
+}
+
 type joinKvsIter struct {
 	kvs []joinKv
 	ids []int
-- 
2.43.0


From 31dee8ebc072b9ac8a72f29f2d7b54441ff9226d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:25 +0000
Subject: [PATCH 44/57] fix: tolerance or delay of a call also applied to the
 same command called in its subflow

---
 pkg/core/model/env.go | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/pkg/core/model/env.go b/pkg/core/model/env.go
index 9aa42db..6f9c90b 100644
--- a/pkg/core/model/env.go
+++ b/pkg/core/model/env.go
@@ -189,7 +189,8 @@ func (self *Env) SetIfEmpty(name string, val string) (old EnvVal) {
 func (self *Env) SetEx(name string, val string, isArg bool, isSysArg bool) (old EnvVal) {
 	var exists bool
 	old, exists = self.GetEx(name)
-	if exists && old.Raw == val {
+	// A sys arg belongs to the layer of its call, even if an outer call has the same one
+	if exists && old.Raw == val && !isSysArg {
 		return
 	}
 	self.pairs[name] = EnvVal{val, isArg, isSysArg}
@@ -219,24 +220,16 @@ func (self *Env) GetSysArgv(cmdPath []string, sep string) SysArgVals {
 	sysArgv := SysArgVals{}
 	keyPrefix := strings.Join(cmdPath, sep) + sep
 	sysArgPrefix := self.GetRaw("strs.sys-arg-prefix")
-	self.getSysArgv(keyPrefix, sysArgPrefix, sysArgv)
-	return sysArgv
-}
-
-func (self *Env) getSysArgv(keyPrefix string, sysArgPrefix string, sysArgv SysArgVals) {
+	// Only from the layer of this call: a sys arg is not for the same command called in its subflow
 	prefixLen := len(keyPrefix) + len(sysArgPrefix)
 	for k, v := range self.pairs {
 		if !v.IsSysArg || len(k) <= prefixLen || !strings.HasPrefix(k, keyPrefix) {
 			continue
 		}
 		key := k[prefixLen:]
-		if _, ok := sysArgv[key]; !ok {
-			sysArgv[key] = v.Raw
-		}
-	}
-	if self.parent != nil {
-		self.parent.getSysArgv(keyPrefix, sysArgPrefix, sysArgv)
+		sysArgv[key] = v.Raw
 	}
+	return sysArgv
 }
 
 func (self Env) Get(name string) EnvVal {
-- 
2.43.0


From 26924cf29eb776ff0f0a9a96a1e43e5547ab9274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:47 +0000
Subject: [PATCH 45/57] fix: invocations saving the same env, flow or hub list
 at the same time could damage it

---
 pkg/core/model/proto.go                 | 22 ++++---------
 pkg/mods/persist/hub_meta/hub_meta.go   | 31 ++++++++-----------
 pkg/mods/persist/meta_file/meta_file.go | 28 +++++------------
 pkg/utils/file.go                       | 41 +++++++++++++++++++++++++
 4 files changed, 68 insertions(+), 54 deletions(-)
 create mode 100644 pkg/utils/file.go

diff --git a/pkg/core/model/proto.go b/pkg/core/model/proto.go
index 5e36d62..ab708f2 100644
--- a/pkg/core/model/proto.go
+++ b/pkg/core/model/proto.go
@@ -9,6 +9,8 @@ import (
 	"path/filepath"
 	"sort"
 	"strings"
+
+	"github.com/innerr/ticat/pkg/utils"
 )
 
 func EnvOutput(env *Env, writer io.Writer, sep string, filtered []string, skipDefault bool) error {
@@ -61,23 +63,11 @@ func EnvInput(env *Env, reader io.Reader, sep string, delMark string) error {
 }
 
 func saveEnvToFile(env *Env, path string, sep string, filtered []string, skipDefault bool) {
-	tmp := path + ".tmp"
-	file, err := os.OpenFile(tmp, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
-	if err != nil {
-		panic(fmt.Errorf("[SaveEnvToFile] open env file '%s' failed: %v", tmp, err))
-	}
-	defer file.Close()
-
-	err = EnvOutput(env, file, sep, filtered, skipDefault)
-	if err != nil {
-		panic(fmt.Errorf("[SaveEnvToFile] write env file '%s' failed: %v", tmp, err))
-	}
-	file.Close()
-
-	err = os.Rename(tmp, path)
+	err := utils.ReplaceFile(path, func(writer io.Writer) error {
+		return EnvOutput(env, writer, sep, filtered, skipDefault)
+	})
 	if err != nil {
-		panic(fmt.Errorf("[SaveEnvToFile] rename env file '%s' to '%s' failed: %v",
-			tmp, path, err))
+		panic(fmt.Errorf("[SaveEnvToFile] save env file '%s' failed: %v", path, err))
 	}
 }
 
diff --git a/pkg/mods/persist/hub_meta/hub_meta.go b/pkg/mods/persist/hub_meta/hub_meta.go
index a0e55f9..23195c4 100644
--- a/pkg/mods/persist/hub_meta/hub_meta.go
+++ b/pkg/mods/persist/hub_meta/hub_meta.go
@@ -3,9 +3,12 @@ package hub_meta
 import (
 	"bufio"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 	"strings"
+
+	"github.com/innerr/ticat/pkg/utils"
 )
 
 type RepoAddr struct {
@@ -59,26 +62,18 @@ func WriteReposInfoFile(
 	}
 
 	os.MkdirAll(filepath.Dir(path), os.ModePerm)
-	tmp := path + ".tmp"
-	file, err := os.OpenFile(tmp, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
-	if err != nil {
-		panic(fmt.Errorf("[WriteReposInfoFile] open file '%s' failed: %v", tmp, err))
-	}
-	defer file.Close()
-
-	for _, info := range infos {
-		_, err = fmt.Fprintf(file, "%s%s%s%s%s%s%s%s%s\n", info.Addr.Str(), sep, info.AddReason, sep,
-			tryConvAbsPathToRelPath(hubRootPath, info.Path), sep, info.HelpStr, sep, info.OnOff)
-		if err != nil {
-			panic(fmt.Errorf("[WriteReposInfoFile] write file '%s' failed: %v", tmp, err))
+	err := utils.ReplaceFile(path, func(writer io.Writer) error {
+		for _, info := range infos {
+			_, err := fmt.Fprintf(writer, "%s%s%s%s%s%s%s%s%s\n", info.Addr.Str(), sep, info.AddReason, sep,
+				tryConvAbsPathToRelPath(hubRootPath, info.Path), sep, info.HelpStr, sep, info.OnOff)
+			if err != nil {
+				return err
+			}
 		}
-	}
-	file.Close()
-
-	err = os.Rename(tmp, path)
+		return nil
+	})
 	if err != nil {
-		panic(fmt.Errorf("[WriteReposInfoFile] rename file '%s' to '%s' failed: %v",
-			tmp, path, err))
+		panic(fmt.Errorf("[WriteReposInfoFile] write file '%s' failed: %v", path, err))
 	}
 }
 
diff --git a/pkg/mods/persist/meta_file/meta_file.go b/pkg/mods/persist/meta_file/meta_file.go
index 82bccf6..a9ad93a 100644
--- a/pkg/mods/persist/meta_file/meta_file.go
+++ b/pkg/mods/persist/meta_file/meta_file.go
@@ -6,8 +6,9 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
-	"os"
 	"strings"
+
+	"github.com/innerr/ticat/pkg/utils"
 )
 
 type VirtualMetaFile struct {
@@ -249,26 +250,13 @@ func (self *MetaFile) parse(lines []string) {
 
 func (self *MetaFile) Save() {
 	// A broken-off saving must not damage the old file
-	tmp := self.path + ".tmp"
-	file, err := os.OpenFile(tmp, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
-	if err != nil {
-		panic(fmt.Errorf("[MetaFile.Save] open mod meta file '%s' for save failed: %v",
-			tmp, err))
-	}
-	defer file.Close()
-
-	writer := bufio.NewWriter(file)
-	self.save(writer)
-	err = writer.Flush()
-	if err != nil {
-		panic(fmt.Errorf("[MetaFile.Save] write mod meta file '%s' failed: %v", tmp, err))
-	}
-	file.Close()
-
-	err = os.Rename(tmp, self.path)
+	err := utils.ReplaceFile(self.path, func(w io.Writer) error {
+		writer := bufio.NewWriter(w)
+		self.save(writer)
+		return writer.Flush()
+	})
 	if err != nil {
-		panic(fmt.Errorf("[MetaFile.Save] rename mod meta file '%s' to '%s' failed: %v",
-			tmp, self.path, err))
+		panic(fmt.Errorf("[MetaFile.Save] save mod meta file '%s' failed: %v", self.path, err))
 	}
 }
 
diff --git a/pkg/utils/file.go b/pkg/utils/file.go
new file mode 100644
index 0000000..c0fcef3
--- /dev/null
+++ b/pkg/utils/file.go
@@ -0,0 +1,41 @@
+package utils
+
+import (
+	"fmt"
+	"io"
+	"os"
+)
+
+// Replace the content of a file at once: readers never see a half-written file,
+// and concurrent writers (each has its own tmp file) never mix up their contents
+func ReplaceFile(path string, write func(io.Writer) error) (err error) {
+	file, err := createTmpFile(path)
+	if err != nil {
+		return err
+	}
+	defer func() {
+		file.Close()
+		if err != nil {
+			os.Remove(file.Name())
+		}
+	}()
+
+	if err = write(file); err != nil {
+		return err
+	}
+	if err = file.Close(); err != nil {
+		return err
+	}
+	return os.Rename(file.Name(), path)
+}
+
+func createTmpFile(path string) (file *os.File, err error) {
+	for i := 0; i < 10000; i++ {
+		tmp := fmt.Sprintf("%s.%d.%d.tmp", path, os.Getpid(), i)
+		file, err = os.OpenFile(tmp, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0644)
+		if err == nil || !os.IsExist(err) {
+			break
+		}
+	}
+	return
+}
-- 
2.43.0


From 5d4fef30ce99d9557de9e9dc74c65c6ccc895be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:59 +0000
Subject: [PATCH 46/57] fix: flow.set-help-str dropped the args, env and other
 settings of a flow

---
 pkg/mods/builtin/flow.go                |  4 ++--
 pkg/mods/persist/flow_file/flow_file.go | 11 +++++++++++
 pkg/mods/persist/meta_file/meta_file.go |  6 ++++--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/pkg/mods/builtin/flow.go b/pkg/mods/builtin/flow.go
index 3ce6073..fc66999 100644
--- a/pkg/mods/builtin/flow.go
+++ b/pkg/mods/builtin/flow.go
@@ -304,8 +304,8 @@ func SetFlowHelpStr(
 
 	help := argv.GetRaw("help-str")
 	argCmdPath, cmdPath, filePath, _ := getFlowCmdPath(flow, currCmdIdx, true, "", argv, cc, env, true, "cmd-path")
-	flowStrs, oldHelp, abbrsStr, trivial, autoArgs, packSub := flow_file.LoadFlowFile(filePath)
-	flow_file.SaveFlowFile(filePath, flowStrs, help, abbrsStr, trivial, autoArgs, packSub)
+	flowStrs, oldHelp, _, _, _, _ := flow_file.LoadFlowFile(filePath)
+	flow_file.SaveFlowFileHelp(filePath, help)
 
 	realCmdStr := ""
 	if argCmdPath != cmdPath {
diff --git a/pkg/mods/persist/flow_file/flow_file.go b/pkg/mods/persist/flow_file/flow_file.go
index 4a74455..1db38c2 100644
--- a/pkg/mods/persist/flow_file/flow_file.go
+++ b/pkg/mods/persist/flow_file/flow_file.go
@@ -59,3 +59,14 @@ func SaveFlowFile(path string, flow []string, help string, abbrs string,
 	}
 	meta.Save()
 }
+
+// Change nothing else but the help string
+func SaveFlowFileHelp(path string, help string) {
+	metas := meta_file.NewMetaFile(path)
+	if len(metas) != 1 {
+		panic(fmt.Errorf("can't load content for edit from a combined flow file"))
+	}
+	meta := metas[0].Meta
+	meta.GetGlobalSection().Set("help", help)
+	meta.Save()
+}
diff --git a/pkg/mods/persist/meta_file/meta_file.go b/pkg/mods/persist/meta_file/meta_file.go
index a9ad93a..48dcf4a 100644
--- a/pkg/mods/persist/meta_file/meta_file.go
+++ b/pkg/mods/persist/meta_file/meta_file.go
@@ -140,9 +140,8 @@ func (self *MetaFile) GetAll() SectionMap {
 
 func (self *MetaFile) parse(lines []string) {
 	var sectionName string
-	section := NewSection()
+	section := self.NewOrGetSection(sectionName)
 	global := section
-	self.sections[sectionName] = section
 
 	var multiLineKey string
 	var multiLineValue []string
@@ -229,6 +228,9 @@ func (self *MetaFile) parse(lines []string) {
 			} else {
 				sectionName = line[1 : size-1]
 				section = NewSection()
+				if _, ok := self.sections[sectionName]; !ok {
+					self.orderedKeys = append(self.orderedKeys, sectionName)
+				}
 				self.sections[sectionName] = section
 			}
 			continue
-- 
2.43.0


From 0e600138278da1908a0ade7834ca01cba7d96393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:56 +0000
Subject: [PATCH 47/57] fix: a command under another one's path, saved as a
 flow or from an earlier linked dir, made that other one unavailable

---
 pkg/core/model/cmds.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/pkg/core/model/cmds.go b/pkg/core/model/cmds.go
index 16aa5b9..1e43bca 100644
--- a/pkg/core/model/cmds.go
+++ b/pkg/core/model/cmds.go
@@ -85,23 +85,17 @@ func (self *CmdTree) Execute(
 }
 
 func (self *CmdTree) cmdConflictCheck(help string, funName string, source string) {
-	// Allow in-source overwrite when: the cmd is not registered
-	if self.cmd == nil && self.source == source {
+	// Not a conflict when: only the commands under this one are registered
+	if self.cmd == nil {
 		return
 	}
 	// Allow cross-source overwrite when: the cmd is a totally empty dir cmd
-	if self.cmd != nil && self.cmd.IsTotallyEmpty() {
+	if self.cmd.IsTotallyEmpty() {
 		return
 	}
-	var errStr string
-	if self.cmd != nil {
-		errStr = fmt.Sprintf("reg-cmd conflicted. old-help '%s', new-help '%s'",
-			strings.Split(self.cmd.Help(), "\n")[0],
-			strings.Split(help, "\n")[0])
-	} else {
-		errStr = fmt.Sprintf("reg-cmd conflicted. old-cmd is no executable, new-help '%s'",
-			strings.Split(help, "\n")[0])
-	}
+	errStr := fmt.Sprintf("reg-cmd conflicted. old-help '%s', new-help '%s'",
+		strings.Split(self.cmd.Help(), "\n")[0],
+		strings.Split(help, "\n")[0])
 	err := &CmdTreeErrExecutableConflicted{
 		errStr,
 		self.Path(),
-- 
2.43.0


From f2808bd7826d4ca97f9a6be522e1038a2851a877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:14 +0000
Subject: [PATCH 48/57] fix: a directory whose own name begins with a dot can
 be used as a module directory

---
 pkg/mods/builtin/mod.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/mod.go b/pkg/mods/builtin/mod.go
index 3a17dd7..2d389a8 100644
--- a/pkg/mods/builtin/mod.go
+++ b/pkg/mods/builtin/mod.go
@@ -48,7 +48,7 @@ func loadLocalMods(
 		if info != nil && info.IsDir() {
 			// Skip hidden file or dir
 			base := filepath.Base(metaPath)
-			if len(base) > 0 && base[0] == '.' {
+			if metaPath != root && len(base) > 0 && base[0] == '.' {
 				return filepath.SkipDir
 			}
 			return nil
-- 
2.43.0


From 2d25b7dc03a530bec83524caec9b80dd6070bcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:30 +0000
Subject: [PATCH 49/57] fix: a command below a directory with a dot in its name
 can be called

---
 pkg/mods/builtin/mod.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/mod.go b/pkg/mods/builtin/mod.go
index 2d389a8..82de902 100644
--- a/pkg/mods/builtin/mod.go
+++ b/pkg/mods/builtin/mod.go
@@ -95,7 +95,9 @@ func loadLocalMods(
 			isDir = info.IsDir()
 		}
 
-		cmdPaths := strings.Split(cmdPath, string(filepath.Separator))
+		// A dir name may contain the path sep, as the name of a flow file may
+		cmdPath = strings.ReplaceAll(cmdPath, string(filepath.Separator), cc.Cmds.Strs.PathSep)
+		cmdPaths := strings.Split(cmdPath, cc.Cmds.Strs.PathSep)
 		mod_meta.RegMod(cc, metaPath, targetPath, isDir, false, cmdPaths,
 			flowExt, abbrsSep, envPathSep, source, panicRecover)
 		return nil
-- 
2.43.0


From 8e23de36beb745db6d74ba90883d06fe3fb0f98e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:54:52 +0000
Subject: [PATCH 50/57] fix: searching for 'write' (or a part of the word)
 matched every command, not the ones which write env

---
 pkg/core/model/env_mapper.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/core/model/env_mapper.go b/pkg/core/model/env_mapper.go
index 39047b2..0d9f285 100644
--- a/pkg/core/model/env_mapper.go
+++ b/pkg/core/model/env_mapper.go
@@ -71,7 +71,7 @@ func (self *Val2Env) Has(envKey string) bool {
 }
 
 func (self *Val2Env) MatchFind(findStr string) bool {
-	if strings.Index("write", findStr) >= 0 {
+	if len(self.orderedKeys) != 0 && strings.Index("write", findStr) >= 0 {
 		return true
 	}
 	for _, envKey := range self.orderedKeys {
@@ -158,7 +158,7 @@ func (self *Arg2Env) GetEnvKey(argName string) (string, bool) {
 }
 
 func (self *Arg2Env) MatchFind(findStr string) bool {
-	if strings.Index("write", findStr) >= 0 {
+	if len(self.orderedKeys) != 0 && strings.Index("write", findStr) >= 0 {
 		return true
 	}
 	for argName, envKey := range self.nameKeys {
-- 
2.43.0


From b15795a03eadf8b62c6ffbb6d10d3ede86db2b09 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:54:52 +0000
Subject: [PATCH 51/57] fix: tail-sub (and ~ ~~ ~~~) ignored its arg 'tag'

---
 pkg/mods/builtin/dump_cmds.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/mods/builtin/dump_cmds.go b/pkg/mods/builtin/dump_cmds.go
index 94403d2..5ee013c 100644
--- a/pkg/mods/builtin/dump_cmds.go
+++ b/pkg/mods/builtin/dump_cmds.go
@@ -133,6 +133,14 @@ func dumpTailCmdSub(
 		dumpArgs.AddFindStrs(findStrs...)
 	}
 
+	tag := argv.GetRaw("tag")
+	if len(tag) != 0 {
+		if len(findStrs) != 0 {
+			panic(model.NewCmdError(flow.Cmds[currCmdIdx], "not support mix-search with tag and keywords now"))
+		}
+		dumpArgs.AddFindStrs(tag).SetFindByTags()
+	}
+
 	source := argv.GetRaw("source")
 	if len(source) != 0 {
 		dumpArgs.SetSource(source)
-- 
2.43.0


From 03de99fa6c3bb257fb8fb1d01d01b2b39eece837 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:58:04 +0000
Subject: [PATCH 52/57] fix: the env-op 'r' of a key with more than one op ('r
 : w') was dropped

---
 pkg/mods/persist/mod_meta/mod_reg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mods/persist/mod_meta/mod_reg.go b/pkg/mods/persist/mod_meta/mod_reg.go
index 499c954..25af4bb 100644
--- a/pkg/mods/persist/mod_meta/mod_reg.go
+++ b/pkg/mods/persist/mod_meta/mod_reg.go
@@ -604,7 +604,7 @@ func regEnvKeyAbbrs(
 }
 
 func regEnvOp(cmd *model.Cmd, key string, opOrigin string) {
-	op := strings.ToLower(opOrigin)
+	op := strings.ToLower(strings.TrimSpace(opOrigin))
 	may := strings.Index(op, "may") >= 0 || strings.Index(op, "opt") >= 0
 	write := strings.Index(op, "w") >= 0
 	read := strings.Index(op, "rd") >= 0 ||
-- 
2.43.0


From d0fadcf2d1ec4471b1f2e42d51439f539c4009df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:52 +0000
Subject: [PATCH 53/57] fix: describing a flow ignored the env changes of sub
 flows not shown (duplicated, folded), later commands were shown with wrong
 values

---
 pkg/cli/display/flow.go | 42 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/pkg/cli/display/flow.go b/pkg/cli/display/flow.go
index 218e132..b31e6a4 100644
--- a/pkg/cli/display/flow.go
+++ b/pkg/cli/display/flow.go
@@ -289,8 +289,8 @@ func dumpFlowCmd(
 		dumpCmdTypeAndSource(cmd, cmdEnv, prt, args)
 	}
 
+	metFlow := false
 	if !foldSubFlow() && !cic.IsBuiltinCmd() && (cic.HasCmdLine() || cic.HasSubFlow(false)) {
-		metFlow := false
 		if cic.HasSubFlow(false) {
 			flowStrs, _, _ := cic.RenderedFlowStrs(argv, cc, cmdEnv, true, true)
 			flowStr := strings.Join(flowStrs, " ")
@@ -373,6 +373,11 @@ func dumpFlowCmd(
 		}
 	}
 
+	// The commands after this one depend on the env changes of the sub flow, shown or not
+	if executedCmd == nil && (metFlow || foldSubFlow()) {
+		applyHiddenSubFlow(cc, cic, argv, cmdEnv, envOpCmds, depth)
+	}
+
 	model.TryExeEnvOpCmds(argv, cc, cmdEnv, flow, currCmdIdx, envOpCmds, nil,
 		"failed to execute env-op cmd in flow desc")
 
@@ -383,6 +388,41 @@ func dumpFlowCmd(
 	return cmdInBg, !cmdFailed()
 }
 
+func applyHiddenSubFlow(
+	cc *model.Cli,
+	cic *model.Cmd,
+	argv model.ArgVals,
+	cmdEnv *model.Env,
+	envOpCmds []model.EnvOpCmd,
+	depth int) {
+
+	if !cic.HasSubFlow(false) {
+		return
+	}
+	subFlow, _, rendered := cic.Flow(argv, cc, cmdEnv, true, true)
+	if !rendered || len(subFlow) == 0 {
+		return
+	}
+	flow := cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, subFlow...)
+	if flow.FirstErr() != nil {
+		return
+	}
+
+	flowEnv := cmdEnv.NewLayer(model.EnvLayerSubFlow)
+	flow.GlobalEnv.WriteNotArgTo(flowEnv, cc.Cmds.Strs.EnvValDelAllMark)
+	for i, parsedCmd := range flow.Cmds {
+		sub := parsedCmd.LastCmd()
+		if sub == nil {
+			continue
+		}
+		subEnv, subArgv := parsedCmd.ApplyMappingGenEnvAndArgv(flowEnv,
+			cc.Cmds.Strs.EnvValDelAllMark, cc.Cmds.Strs.PathSep, depth+2)
+		applyHiddenSubFlow(cc, sub, subArgv, subEnv, envOpCmds, depth+1)
+		model.TryExeEnvOpCmds(subArgv, cc, subEnv, flow, i, envOpCmds, nil,
+			"failed to execute env-op cmd in flow desc")
+	}
+}
+
 func dumpCmdHelp(help string, env *model.Env, args *DumpFlowArgs, prt func(indentLvl int, msg string)) {
 	if args.MonitorMode {
 		return
-- 
2.43.0


From 6a40d87fc57a14bda401d4904abbb8885e4adda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:18 +0000
Subject: [PATCH 54/57] fix: the flow of a command with both flow and
 executable was walked twice when collecting dependencies, describing it
 failed if its flow changed what its own templates use

---
 pkg/core/model/dep.go | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/pkg/core/model/dep.go b/pkg/core/model/dep.go
index 2dd3012..3df2483 100644
--- a/pkg/core/model/dep.go
+++ b/pkg/core/model/dep.go
@@ -38,17 +38,6 @@ func collectDepends(
 
 		cmdEnv, argv := it.ApplyMappingGenEnvAndArgv(env, cc.Cmds.Strs.EnvValDelAllMark, cc.Cmds.Strs.PathSep, depth+1)
 
-		if cic.Type() == CmdTypeFileNFlow {
-			subFlow, _, rendered := cic.Flow(argv, cc, cmdEnv, allowFlowTemplateRenderError, true)
-			if rendered && len(subFlow) != 0 {
-				parsedFlow := cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, subFlow...)
-				flowEnv := cmdEnv.NewLayer(EnvLayerSubFlow)
-				parsedFlow.GlobalEnv.WriteNotArgTo(flowEnv, cc.Cmds.Strs.EnvValDelAllMark)
-				// Allow parse errors here
-				collectDepends(cc, flowEnv, parsedFlow, 0, res, allowFlowTemplateRenderError, envOpCmds, depth+1)
-			}
-		}
-
 		deps := cic.GetDepends()
 		for _, dep := range deps {
 			cmds, ok := res[dep.OsCmd]
-- 
2.43.0


From 68222a642cf404cbb7126dd3312ccc6a0ca11adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:27 +0000
Subject: [PATCH 55/57] fix: describing a flow ignored the env changes of quiet
 commands and of packed sub flows

---
 pkg/cli/display/flow.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pkg/cli/display/flow.go b/pkg/cli/display/flow.go
index b31e6a4..5b04e03 100644
--- a/pkg/cli/display/flow.go
+++ b/pkg/cli/display/flow.go
@@ -174,14 +174,19 @@ func dumpFlowCmd(
 	if cic == nil {
 		return false, true
 	}
-	if cmd.IsQuiet() && !cmd.HasSubs() && !env.GetBool("display.mod.quiet") {
-		return false, true
-	}
-
 	// TODO: this is slow
 	originEnv := env.Clone()
 	cmdEnv, argv := parsedCmd.ApplyMappingGenEnvAndArgv(env, cc.Cmds.Strs.EnvValDelAllMark, cmd.Strs.PathSep, depth+1)
 
+	if cmd.IsQuiet() && !cmd.HasSubs() && !env.GetBool("display.mod.quiet") {
+		if executedCmd == nil {
+			applyHiddenSubFlow(cc, cic, argv, cmdEnv, envOpCmds, depth)
+			model.TryExeEnvOpCmds(argv, cc, cmdEnv, flow, currCmdIdx, envOpCmds, nil,
+				"failed to execute env-op cmd in flow desc")
+		}
+		return false, true
+	}
+
 	padLenCal := func(indentLvl int) int {
 		indentLvl += depth * 2
 		return args.IndentSize * indentLvl
@@ -289,8 +294,9 @@ func dumpFlowCmd(
 		dumpCmdTypeAndSource(cmd, cmdEnv, prt, args)
 	}
 
-	metFlow := false
+	subFlowShown := false
 	if !foldSubFlow() && !cic.IsBuiltinCmd() && (cic.HasCmdLine() || cic.HasSubFlow(false)) {
+		metFlow := false
 		if cic.HasSubFlow(false) {
 			flowStrs, _, _ := cic.RenderedFlowStrs(argv, cc, cmdEnv, true, true)
 			flowStr := strings.Join(flowStrs, " ")
@@ -328,6 +334,7 @@ func dumpFlowCmd(
 			subFlow, _, rendered := cic.Flow(argv, cc, cmdEnv, true, true)
 			if rendered && len(subFlow) != 0 {
 				if !metFlow || executedCmd != nil || cmdFailed() {
+					subFlowShown = true
 					depthMark := ""
 					if executedCmd != nil && !args.Skeleton {
 						depthMark = fmt.Sprintf(" L%v", depth+1)
@@ -374,7 +381,7 @@ func dumpFlowCmd(
 	}
 
 	// The commands after this one depend on the env changes of the sub flow, shown or not
-	if executedCmd == nil && (metFlow || foldSubFlow()) {
+	if executedCmd == nil && !subFlowShown {
 		applyHiddenSubFlow(cc, cic, argv, cmdEnv, envOpCmds, depth)
 	}
 
@@ -396,7 +403,7 @@ func applyHiddenSubFlow(
 	envOpCmds []model.EnvOpCmd,
 	depth int) {
 
-	if !cic.HasSubFlow(false) {
+	if !cic.HasSubFlow(true) {
 		return
 	}
 	subFlow, _, rendered := cic.Flow(argv, cc, cmdEnv, true, true)
-- 
2.43.0


From 89fdfa99b46a23048fa771193f5c124711025d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:27 +0000
Subject: [PATCH 56/57] fix: the statuses of a described session were shown at
 the wrong commands if there were env definitions among them

---
 pkg/cli/display/flow.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/cli/display/flow.go b/pkg/cli/display/flow.go
index 5b04e03..10206fc 100644
--- a/pkg/cli/display/flow.go
+++ b/pkg/cli/display/flow.go
@@ -113,14 +113,19 @@ func dumpFlow(
 
 	metFailedOrRunning := false
 
+	executedIdx := 0
+
 	for i, cmd := range flow.Cmds[fromCmdIdx:] {
 		if cmd.IsEmpty() {
 			continue
 		}
 		var executedCmd *model.ExecutedCmd
-		if executedFlow != nil {
-			if i < len(executedFlow.Cmds) {
-				executedCmd = executedFlow.GetCmd(i)
+		// Commands without executable (eg: an env definition) are not recorded, so there is no status for them
+		last := cmd.LastCmdNode()
+		if executedFlow != nil && last != nil && !last.IsNoExecutableCmd() {
+			if executedIdx < len(executedFlow.Cmds) {
+				executedCmd = executedFlow.GetCmd(executedIdx)
+				executedIdx += 1
 			} else {
 				// TODO: better display
 				name := strings.Join(cmd.Path(), sep)
-- 
2.43.0


From 9e734e257978232a609584dac9ad7f5a594e9a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:28 +0000
Subject: [PATCH 57/57] fix: the flows of a described session were rendered
 with the env of now, not with the recorded one, what failed was not shown

---
 pkg/cli/display/flow.go    | 14 ++++++++++----
 pkg/core/model/executed.go | 14 ++++++++++++++
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/pkg/cli/display/flow.go b/pkg/cli/display/flow.go
index 10206fc..eef0442 100644
--- a/pkg/cli/display/flow.go
+++ b/pkg/cli/display/flow.go
@@ -233,13 +233,19 @@ func dumpFlowCmd(
 	sysArgv := cmdEnv.GetSysArgv(cmd.Path(), cc.Cmds.Strs.PathSep)
 	cmdInBg = parentInBg || sysArgv.IsDelay()
 
+	// The sub flow of an executed command was rendered with the env at that time
+	flowEnv := cmdEnv
+	if executedCmd != nil && executedCmd.Result != model.ExecutedResultUnRun {
+		flowEnv = executedCmd.RestoreStartEnv(cmdEnv)
+	}
+
 	// Folding if too trivial or too deep
 	if !notFold() {
 		model.TryExeEnvOpCmds(argv, cc, cmdEnv, flow, currCmdIdx, envOpCmds, nil,
 			"failed to execute env-op cmd in flow desc")
 
 		// This is for render checking, even it's folded
-		subFlow, _, rendered := cic.Flow(argv, cc, cmdEnv, true, true)
+		subFlow, _, rendered := cic.Flow(argv, cc, flowEnv, true, true)
 		if rendered {
 			parsedFlow := cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, subFlow...)
 			err := parsedFlow.FirstErr()
@@ -303,7 +309,7 @@ func dumpFlowCmd(
 	if !foldSubFlow() && !cic.IsBuiltinCmd() && (cic.HasCmdLine() || cic.HasSubFlow(false)) {
 		metFlow := false
 		if cic.HasSubFlow(false) {
-			flowStrs, _, _ := cic.RenderedFlowStrs(argv, cc, cmdEnv, true, true)
+			flowStrs, _, _ := cic.RenderedFlowStrs(argv, cc, flowEnv, true, true)
 			flowStr := strings.Join(flowStrs, " ")
 			metFlow = metFlows[flowStr]
 			if !cmdFailed() && metFlow && executedCmd == nil {
@@ -336,7 +342,7 @@ func dumpFlowCmd(
 		}
 
 		if cic.HasSubFlow(false) && !cmdSkipped() && (executedCmd == nil || executedCmd.Result != model.ExecutedResultUnRun) {
-			subFlow, _, rendered := cic.Flow(argv, cc, cmdEnv, true, true)
+			subFlow, _, rendered := cic.Flow(argv, cc, flowEnv, true, true)
 			if rendered && len(subFlow) != 0 {
 				if !metFlow || executedCmd != nil || cmdFailed() {
 					subFlowShown = true
@@ -353,7 +359,7 @@ func dumpFlowCmd(
 						panic(err.Error)
 					}
 
-					subflowEnv := cmdEnv.NewLayer(model.EnvLayerSubFlow)
+					subflowEnv := flowEnv.NewLayer(model.EnvLayerSubFlow)
 					parsedFlow.GlobalEnv.WriteNotArgTo(subflowEnv, cc.Cmds.Strs.EnvValDelAllMark)
 
 					var executedFlow *model.ExecutedFlow
diff --git a/pkg/core/model/executed.go b/pkg/core/model/executed.go
index c0594f4..8e7a8c1 100644
--- a/pkg/core/model/executed.go
+++ b/pkg/core/model/executed.go
@@ -42,6 +42,20 @@ func NewExecutedCmd(cmd string) *ExecutedCmd {
 	return &ExecutedCmd{Cmd: cmd, Result: ExecutedResultIncompleted}
 }
 
+// The env when the command started, what is not recorded (eg: settings) is from the current env
+func (self *ExecutedCmd) RestoreStartEnv(env *Env) *Env {
+	env = env.Clone()
+	for k := range keysNotInEnv(recordedViewOfEnv(env), self.StartEnv) {
+		env.DeleteEx(k, EnvLayerDefault)
+	}
+	if self.StartEnv != nil {
+		for k, v := range self.StartEnv.FlattenAll() {
+			env.Set(k, v)
+		}
+	}
+	return env
+}
+
 func (self *ExecutedCmd) CalResultInCaseIncompleted() {
 	if self.Result != ExecutedResultSucceeded && self.Result != ExecutedResultIncompleted {
 		return
-- 
2.43.0

