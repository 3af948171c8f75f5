From c2c065d8ee2c38fd04ede2eac0a6a22ee41d38dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:48 +0000
Subject: [PATCH 01/52] fix: cat continues after an unreadable operand and
 exits non-zero

A missing operand ended the loop (dropping every later operand) and the
exit status was 0.
---
 cmd/cat/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/cat/main.go b/cmd/cat/main.go
index 639fa86..4c157e9 100644
--- a/cmd/cat/main.go
+++ b/cmd/cat/main.go
@@ -45,11 +45,15 @@ func main() {
 		filenames = append(filenames, "-")
 	}
 
+	failed := false
 	for _, fn := range filenames {
 		err := writeFile(fn)
 		if err != nil {
 			os.Stderr.Write([]byte(fmt.Sprintf("Error encountered while attempting to read from %s: %s\n", fn, err)))
-			break
+			failed = true
 		}
 	}
+	if failed {
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From eda6a9418dc442dda1b32d3bb5301e3ac96d9789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:50 +0000
Subject: [PATCH 02/52] fix: cksum omits the pathname for standard input and
 survives unreadable operands

Without operands POSIX has only the CRC and the octet count; and an operand
that cannot be read must not keep the others from being processed.
---
 cmd/cksum/main.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/cmd/cksum/main.go b/cmd/cksum/main.go
index d0177cb..1ff76ae 100644
--- a/cmd/cksum/main.go
+++ b/cmd/cksum/main.go
@@ -6,35 +6,44 @@ import (
 	"os"
 )
 
-func die(format string, args ...interface{}) {
-	fmt.Fprintf(os.Stderr, format, args...)
-	os.Exit(1)
-}
-
-func run(filename string) {
+// run checksums one file. The name is only printed if it was given as an operand.
+func run(filename string, printName bool) error {
 	reader := os.Stdin
 	if filename != "-" {
 		f, err := os.Open(filename)
 		if err != nil {
-			die("couldn't open file %s", err)
+			return fmt.Errorf("couldn't open file %s", err)
 		}
 		defer f.Close()
 		reader = f
 	}
 	bytes, err := ioutil.ReadAll(reader)
 	if err != nil {
-		die("couldn't read input %s", err)
+		return fmt.Errorf("couldn't read input %s", err)
 	}
 
+	if !printName {
+		fmt.Printf("%d %d\n", memcrc(bytes), len(bytes))
+		return nil
+	}
 	fmt.Printf("%d %d %s\n", memcrc(bytes), len(bytes), filename)
+	return nil
 }
 
 func main() {
 	files := os.Args[1:]
+	printNames := len(files) > 0
 	if len(files) == 0 {
 		files = append(files, "-")
 	}
+	failed := false
 	for _, f := range files {
-		run(f)
+		if err := run(f, printNames); err != nil {
+			fmt.Fprintf(os.Stderr, "cksum: %s\n", err)
+			failed = true
+		}
+	}
+	if failed {
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From e35400b304a3672ef2eadfa45a6f49236f5fbcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:50 +0000
Subject: [PATCH 03/52] fix: cmp -l exits 1 when files of equal length differ

---
 cmd/cmp/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/cmp/main.go b/cmd/cmp/main.go
index e1235b0..2692b67 100644
--- a/cmd/cmp/main.go
+++ b/cmd/cmp/main.go
@@ -58,12 +58,14 @@ func cmp(s settings) error {
 	buf1 := bufio.NewReader(f1)
 	buf2 := bufio.NewReader(f2)
 	l := 1
+	differ := false
 	for i := 1; err == nil; i++ {
 		b1, err1 := buf1.ReadByte()
 		b2, err2 := buf2.ReadByte()
 
 		if err1 == nil && err2 == nil {
 			if b1 != b2 {
+				differ = true
 				if !s.silent {
 					if s.writeAll {
 						fmt.Printf("%d %o %o\n", i, b1, b2)
@@ -81,6 +83,9 @@ func cmp(s settings) error {
 			continue
 		}
 		if err1 == io.EOF && err2 == io.EOF {
+			if differ {
+				os.Exit(1)
+			}
 			break
 		}
 		if err1 != nil {
-- 
2.43.0


From 032812f0e6fdcdf1ce2736ce14bdea1a694c9a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:50 +0000
Subject: [PATCH 04/52] fix: cmp -s writes nothing when one file is a prefix of
 the other

---
 cmd/cmp/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/cmp/main.go b/cmd/cmp/main.go
index 2692b67..c03a39f 100644
--- a/cmd/cmp/main.go
+++ b/cmd/cmp/main.go
@@ -90,14 +90,18 @@ func cmp(s settings) error {
 		}
 		if err1 != nil {
 			if err1 == io.EOF {
-				fmt.Fprintf(os.Stderr, "cmp: EOF on %s%s\n", s.file1, "")
+				if !s.silent {
+					fmt.Fprintf(os.Stderr, "cmp: EOF on %s%s\n", s.file1, "")
+				}
 				os.Exit(1)
 			}
 			return fmt.Errorf("Error reading %s: %s", s.file1, err1)
 		}
 		if err2 != nil {
 			if err2 == io.EOF {
-				fmt.Fprintf(os.Stderr, "cmp: EOF on %s%s\n", s.file2, "")
+				if !s.silent {
+					fmt.Fprintf(os.Stderr, "cmp: EOF on %s%s\n", s.file2, "")
+				}
 				os.Exit(1)
 			}
 			return fmt.Errorf("Error reading %s: %s", s.file2, err2)
-- 
2.43.0


From 95ff2fa56b737dd0e6331f7dcb191f7009d0c868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:18 +0000
Subject: [PATCH 05/52] fix: cmp exits 2 when file2 cannot be read, also at the
 end of file1

---
 cmd/cmp/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/cmp/main.go b/cmd/cmp/main.go
index c03a39f..e372b62 100644
--- a/cmd/cmp/main.go
+++ b/cmd/cmp/main.go
@@ -88,6 +88,9 @@ func cmp(s settings) error {
 			}
 			break
 		}
+		if err2 != nil && err2 != io.EOF {
+			return fmt.Errorf("Error reading %s: %s", s.file2, err2)
+		}
 		if err1 != nil {
 			if err1 == io.EOF {
 				if !s.silent {
@@ -104,7 +107,6 @@ func cmp(s settings) error {
 				}
 				os.Exit(1)
 			}
-			return fmt.Errorf("Error reading %s: %s", s.file2, err2)
 		}
 
 	}
-- 
2.43.0


From ad734ef438607a384a52894cd814d6655a0628b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:03 +0000
Subject: [PATCH 06/52] fix: head without arguments reads standard input

---
 cmd/head/main.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/cmd/head/main.go b/cmd/head/main.go
index d3d8a3a..20afd01 100644
--- a/cmd/head/main.go
+++ b/cmd/head/main.go
@@ -19,11 +19,6 @@ func parseSettings(args []string) (settings, error) {
 		//filenames: []string{"-"},
 	}
 
-	if len(args) == 0 {
-		return s, nil
-		//return settings{}, fmt.Errorf("No arguments")
-	}
-
 	for i := 0; i < len(args); i++ {
 		if args[i] == "-n" {
 			i++
-- 
2.43.0


From 081a922ffae27221acac97027efcc4b47b9ef37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:03 +0000
Subject: [PATCH 07/52] fix: head reports bad arguments instead of crashing

---
 cmd/head/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/head/main.go b/cmd/head/main.go
index 20afd01..d07e43d 100644
--- a/cmd/head/main.go
+++ b/cmd/head/main.go
@@ -22,6 +22,9 @@ func parseSettings(args []string) (settings, error) {
 	for i := 0; i < len(args); i++ {
 		if args[i] == "-n" {
 			i++
+			if i >= len(args) {
+				return s, fmt.Errorf("option -n needs a number")
+			}
 			n, err := strconv.Atoi(args[i])
 			if err != nil {
 				return s, err
@@ -75,7 +78,8 @@ func process(s settings) {
 func main() {
 	s, err := parseSettings(os.Args[1:])
 	if err != nil {
-		panic(err)
+		fmt.Fprintf(os.Stderr, "head: %s\n", err)
+		os.Exit(1)
 	}
 	process(s)
 }
-- 
2.43.0


From f10b1b0740c7b893ab9b6ed63bed02d345ea0d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:03 +0000
Subject: [PATCH 08/52] fix: head copies lines of any length and content, and
 survives unreadable files

bufio.Scanner dropped carriage returns and gave up (with a panic) on lines
longer than 64 KiB, and an operand that could not be opened crashed head.
---
 cmd/head/main.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/cmd/head/main.go b/cmd/head/main.go
index d07e43d..c1abca1 100644
--- a/cmd/head/main.go
+++ b/cmd/head/main.go
@@ -42,7 +42,9 @@ func parseSettings(args []string) (settings, error) {
 	return s, nil
 }
 
-func process(s settings) {
+// process prints the start of every file, and returns false if any of them couldn't be read
+func process(s settings) bool {
+	ok := true
 
 	for i, filename := range s.filenames {
 		if len(s.filenames) > 1 {
@@ -58,21 +60,29 @@ func process(s settings) {
 		} else {
 			f, err = os.Open(filename)
 			if err != nil {
-				panic(err)
+				fmt.Fprintf(os.Stderr, "head: %s\n", err)
+				ok = false
+				continue
 			}
 		}
 
-		scan := bufio.NewScanner(f)
-		j := 0
-		for scan.Scan() && j < s.numLines {
-			fmt.Println(scan.Text())
-			j++
+		// Not a bufio.Scanner: that limits the length of lines and drops carriage returns
+		reader := bufio.NewReader(f)
+		for j := 0; j < s.numLines && err == nil; j++ {
+			var line []byte
+			line, err = reader.ReadBytes('\n')
+			os.Stdout.Write(line)
 		}
-		if scan.Err() != nil {
-			panic(scan.Err())
+		if err != nil && err != io.EOF {
+			fmt.Fprintf(os.Stderr, "head: %s: %s\n", filename, err)
+			ok = false
+		}
+		if f != os.Stdin {
+			f.Close()
 		}
 	}
 
+	return ok
 }
 
 func main() {
@@ -81,5 +91,7 @@ func main() {
 		fmt.Fprintf(os.Stderr, "head: %s\n", err)
 		os.Exit(1)
 	}
-	process(s)
+	if !process(s) {
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 82cf9650362dd5fa864e11786b914344cbb70d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:04 +0000
Subject: [PATCH 09/52] fix: diff reads lines of any length and keeps carriage
 returns

Lines longer than 64 KiB silently ended the file, and files that differ only
in carriage returns compared equal.
---
 cmd/diff/main.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/cmd/diff/main.go b/cmd/diff/main.go
index aa59f4f..092ecc7 100644
--- a/cmd/diff/main.go
+++ b/cmd/diff/main.go
@@ -3,8 +3,10 @@ package main
 import (
 	"bufio"
 	"fmt"
+	"io"
 	"os"
 	"strconv"
+	"strings"
 
 	"github.com/fwip/posix-utils/pkg/diff"
 )
@@ -86,12 +88,21 @@ func readLines(fn string) ([]string, error) {
 		return nil, err
 	}
 	defer f.Close()
-	scanner := bufio.NewScanner(f)
+	// Not a bufio.Scanner: that limits the length of lines and drops carriage returns
+	reader := bufio.NewReader(f)
 	lines := make([]string, 0)
-	for scanner.Scan() {
-		lines = append(lines, scanner.Text())
+	for {
+		line, err := reader.ReadString('\n')
+		if line != "" {
+			lines = append(lines, strings.TrimSuffix(line, "\n"))
+		}
+		if err == io.EOF {
+			return lines, nil
+		}
+		if err != nil {
+			return nil, err
+		}
 	}
-	return lines, scanner.Err()
 }
 
 func main() {
-- 
2.43.0


From 0bf3cef8c852694fb2922fd2d1d36b10b06eff8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:04 +0000
Subject: [PATCH 10/52] fix: diff's exit status tells whether the files differ

It was always 0, an unreadable file compared as if it were empty, and an
empty line was printed for identical files.
---
 cmd/diff/main.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/cmd/diff/main.go b/cmd/diff/main.go
index 092ecc7..6a0ddb6 100644
--- a/cmd/diff/main.go
+++ b/cmd/diff/main.go
@@ -41,6 +41,9 @@ func parseSettings(args []string) (settings, error) {
 			}
 			s.provideContext = true
 			s.contextSize, err = strconv.Atoi(args[i+1])
+			if err != nil {
+				return s, err
+			}
 			i++
 		case "-e":
 			s.edFormat = true
@@ -105,16 +108,31 @@ func readLines(fn string) ([]string, error) {
 	}
 }
 
+// die reports trouble, for which diff's exit status is greater than 1
+func die(err error) {
+	fmt.Fprintf(os.Stderr, "Oh heck an error: %s\n", err)
+	os.Exit(2)
+}
+
 func main() {
 	settings, err := parseSettings(os.Args[1:])
 	if err != nil {
-		fmt.Fprintf(os.Stdout, "Oh heck an error: %s\n", err)
-		os.Exit(1)
+		die(err)
 	}
 
-	l1, _ := readLines(settings.file1)
-	l2, _ := readLines(settings.file2)
+	l1, err := readLines(settings.file1)
+	if err != nil {
+		die(err)
+	}
+	l2, err := readLines(settings.file2)
+	if err != nil {
+		die(err)
+	}
 	changes := diff.Diff(l1, l2)
 
-	fmt.Println(diff.Format(changes))
+	// Exit 0 means "no differences", 1 means "some"
+	if out := diff.Format(changes); out != "" {
+		fmt.Println(out)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From e8949cc8bd1a371f3d42ece4d0459e8d331492fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:05 +0000
Subject: [PATCH 11/52] fix: announcing a single item to tsort no longer drops
 its orderings

'a b a a' lost the pair 'a b', and with it the item b.
---
 pkg/tsort/tsort.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/tsort/tsort.go b/pkg/tsort/tsort.go
index 7e10f0f..d252767 100644
--- a/pkg/tsort/tsort.go
+++ b/pkg/tsort/tsort.go
@@ -23,7 +23,10 @@ func (s *Sorter) Add(items []string) {
 		return
 	}
 	if len(items) == 1 {
-		s.orderings[items[0]] = nil
+		// Don't forget the orderings we already know for this item
+		if _, ok := s.orderings[items[0]]; !ok {
+			s.orderings[items[0]] = nil
+		}
 		return
 	}
 	for i := 0; i < len(items)-1; i++ {
-- 
2.43.0


From cd347a3bfe5f082ec9caf6355b17152472e7d0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:05 +0000
Subject: [PATCH 12/52] fix: format tsort's diagnostics with their arguments

---
 cmd/tsort/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/tsort/main.go b/cmd/tsort/main.go
index a131ccb..6fbcff9 100644
--- a/cmd/tsort/main.go
+++ b/cmd/tsort/main.go
@@ -10,7 +10,7 @@ import (
 )
 
 func die(msg string, args ...interface{}) {
-	fmt.Fprintf(os.Stderr, "ahh jeez, "+msg+"\n", args)
+	fmt.Fprintf(os.Stderr, "ahh jeez, "+msg+"\n", args...)
 	os.Exit(1)
 }
 
-- 
2.43.0


From c50249d69dee154968b298ea9f70e19a1c20c252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:05 +0000
Subject: [PATCH 13/52] fix: locale prints values that contain a percent sign

---
 cmd/locale/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/locale/main.go b/cmd/locale/main.go
index 23ecf52..95c63dd 100644
--- a/cmd/locale/main.go
+++ b/cmd/locale/main.go
@@ -4,5 +4,5 @@ import "fmt"
 import "github.com/fwip/posix-utils/pkg/locale"
 
 func main() {
-	fmt.Printf(locale.FromEnv().String())
+	fmt.Print(locale.FromEnv().String())
 }
-- 
2.43.0


From 0189ba25acf3c7e5d2a4e22e7406108ae4219267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:32 +0000
Subject: [PATCH 14/52] fix: kill sends the requested signal

---
 cmd/kill/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/kill/main.go b/cmd/kill/main.go
index a186ba1..692d887 100644
--- a/cmd/kill/main.go
+++ b/cmd/kill/main.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"strconv"
 	"strings"
+	"syscall"
 )
 
 var signalMap = map[string]int{
@@ -67,8 +68,7 @@ func main() {
 	if err != nil {
 		errorMsg("couldn't find process with PID of %d: %s\n", pid, err)
 	}
-	//err = process.Signal(syscall.Signal(signal))
-	err = process.Kill()
+	err = process.Signal(syscall.Signal(signal))
 	if err != nil {
 		errorMsg("couldn't send signal %d to %d, %s", signal, pid, err)
 	}
-- 
2.43.0


From 073636c0641639ad3d1e954a670c382ba11cf21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:47 +0000
Subject: [PATCH 15/52] fix: kill signals every listed process and reports bad
 arguments

---
 cmd/kill/main.go | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/cmd/kill/main.go b/cmd/kill/main.go
index 692d887..3686b2b 100644
--- a/cmd/kill/main.go
+++ b/cmd/kill/main.go
@@ -26,11 +26,19 @@ func errorMsg(format string, args ...interface{}) {
 	os.Exit(2)
 }
 
+func signalProcess(pid, signal int) error {
+	process, err := os.FindProcess(pid)
+	if err != nil {
+		return err
+	}
+	return process.Signal(syscall.Signal(signal))
+}
+
 func main() {
 
 	listSignals := false
 	signal := 15
-	var pid int
+	var pids []int
 	var err error
 	var ok bool
 	for i := 1; i < len(os.Args); i++ {
@@ -40,22 +48,26 @@ func main() {
 			listSignals = true
 		case "-s":
 			i++
+			if i == len(os.Args) {
+				errorMsg("-s needs a signal name\n")
+			}
 			signalName := strings.ToUpper(os.Args[i])
 			signal, ok = signalMap[signalName]
 			if !ok {
-				errorMsg("%s is not a valid signal name - check kill -l for help\n", a)
+				errorMsg("%s is not a valid signal name - check kill -l for help\n", os.Args[i])
 			}
 		default:
-			if a[0] == '-' {
+			if strings.HasPrefix(a, "-") {
 				signal, err = strconv.Atoi(a[1:])
 				if err != nil {
 					errorMsg("%s isn't a number, bro...", a)
 				}
 			} else {
-				pid, err = strconv.Atoi(a)
+				pid, err := strconv.Atoi(a)
 				if err != nil {
 					errorMsg("expected a PID here..., got %s", a)
 				}
+				pids = append(pids, pid)
 			}
 		}
 	}
@@ -63,15 +75,18 @@ func main() {
 	if listSignals {
 
 	}
-	fmt.Println("sending", signal, "to", pid)
-	process, err := os.FindProcess(pid)
-	if err != nil {
-		errorMsg("couldn't find process with PID of %d: %s\n", pid, err)
+	if len(pids) == 0 {
+		errorMsg("no PID to signal\n")
 	}
-	err = process.Signal(syscall.Signal(signal))
-	if err != nil {
-		errorMsg("couldn't send signal %d to %d, %s", signal, pid, err)
+	failed := false
+	for _, pid := range pids {
+		err = signalProcess(pid, signal)
+		if err != nil {
+			fmt.Fprintf(os.Stderr, "couldn't send signal %d to %d, %s\n", signal, pid, err)
+			failed = true
+		}
+	}
+	if failed {
+		os.Exit(2)
 	}
-
-	fmt.Println("vim-go")
 }
-- 
2.43.0


From 618619c50de444375284fffe72b85403834cedd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:03 +0000
Subject: [PATCH 16/52] fix: the option parser takes attached values and
 reports bad options

---
 pkg/flag/parse.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pkg/flag/parse.go b/pkg/flag/parse.go
index ff5f5e5..f90e938 100644
--- a/pkg/flag/parse.go
+++ b/pkg/flag/parse.go
@@ -3,6 +3,7 @@ package flag
 import (
 	"fmt"
 	"os"
+	"unicode/utf8"
 )
 
 // Parser does the hard work of assigning parses
@@ -42,25 +43,33 @@ func (p *Parser) Parse() (positionalArgs []string, err error) {
 				continue
 			}
 
+			_, isString := p.strings[c]
+			_, isInt := p.ints[c]
+			if !isString && !isInt {
+				return nil, fmt.Errorf("unknown option %q", c)
+			}
+
 			// Argument may be either bundled or separate
-			value := arg[j+2:]
+			_, width := utf8.DecodeRuneInString(arg[1+j:])
+			value := arg[1+j+width:]
 			if len(value) == 0 {
 				i++
+				if i == len(p.Input) {
+					return nil, fmt.Errorf("option %q needs a value", c)
+				}
 				value = p.Input[i]
 			}
 
 			if flag, ok := p.strings[c]; ok {
 				flag.execute(value)
-				continue
-			}
-			if flag, ok := p.ints[c]; ok {
+			} else if flag, ok := p.ints[c]; ok {
 				err := flag.execute(value)
 				if err != nil {
 					return nil, err
 				}
-				continue
 			}
-			return nil, fmt.Errorf("man what's happening")
+			// The value was the rest of the bundle
+			break
 			//// non-boolean flags may only be bundled if they are the last
 			//if j != len(arg)-2 {
 			//	return nil, ErrBadBundle(fmt.Errorf("inappropriate bundling of %c in %s", c, arg))
-- 
2.43.0


From d68dae02b4f2a443c664d9fe4db379569ce2468c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:27 +0000
Subject: [PATCH 17/52] fix: a BRE repetition ends at the first character that
 does not match

---
 pkg/regexes/bre_evaluate.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/regexes/bre_evaluate.go b/pkg/regexes/bre_evaluate.go
index 1030c1d..94824e1 100644
--- a/pkg/regexes/bre_evaluate.go
+++ b/pkg/regexes/bre_evaluate.go
@@ -44,9 +44,9 @@ func elementsMatch(elements []breDuplElement, runes []rune) (matches bool, match
 	for i := 0; i < e.count.max && i < len(runes); i++ {
 		if e.element.Matches(runes[i]) {
 			matched++
-		} else if matched < e.count.min {
-			// Return early if we don't have at least the minimum matches
-			return false, 0
+		} else {
+			// The repetition ends at the first rune that doesn't match
+			break
 		}
 	}
 
-- 
2.43.0


From 417df8e8c6547e43c44db2318ae29b7cdaf849d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:27 +0000
Subject: [PATCH 18/52] fix: BRE matching honours $ and matches at the end of
 the string

---
 pkg/regexes/bre_evaluate.go | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/pkg/regexes/bre_evaluate.go b/pkg/regexes/bre_evaluate.go
index 94824e1..88caa0c 100644
--- a/pkg/regexes/bre_evaluate.go
+++ b/pkg/regexes/bre_evaluate.go
@@ -4,37 +4,26 @@ package regexes
 func (bre Bre) Matches(input string) bool {
 	runes := []rune(input)
 
-	if bre.anchorLeft || len(input) == 0 {
-		match, length := elementsMatch(bre.elements, runes)
-		if !match {
-			return false
-		}
-		if bre.anchorRight {
-			return length == len(runes)
-		}
-		return true
+	if bre.anchorLeft {
+		return elementsMatch(bre.elements, runes, bre.anchorRight)
 	}
 
-	for i := range runes {
-		match, length := elementsMatch(bre.elements, runes[i:])
-		if !match {
-			continue
+	for i := 0; i <= len(runes); i++ {
+		if elementsMatch(bre.elements, runes[i:], bre.anchorRight) {
+			return true
 		}
-		if bre.anchorRight && length != len(runes[i:]) {
-			continue
-		}
-		return true
 	}
 
 	return false
 }
 
-// recursive
-func elementsMatch(elements []breDuplElement, runes []rune) (matches bool, matchlen int) {
+// elementsMatch tells whether the elements match at the start of runes, and
+// up to their end if toEnd is set. (recursive)
+func elementsMatch(elements []breDuplElement, runes []rune, toEnd bool) bool {
 
-	// No elements matches any string
+	// No elements match the empty string
 	if len(elements) == 0 {
-		return true, len(runes)
+		return !toEnd || len(runes) == 0
 	}
 
 	e := elements[0]
@@ -52,10 +41,10 @@ func elementsMatch(elements []breDuplElement, runes []rune) (matches bool, match
 
 	// Check remainder of matches, backtracking when necessary
 	for i := matched; i >= e.count.min; i-- {
-		if match, length := elementsMatch(elements[1:], runes[i:]); match {
-			return match, length + i
+		if elementsMatch(elements[1:], runes[i:], toEnd) {
+			return true
 		}
 	}
 
-	return false, 0
+	return false
 }
-- 
2.43.0


From b2542d4032b1fb7495630b762f8dc647bf47430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:39 +0000
Subject: [PATCH 19/52] fix: an empty piece table takes more than one insertion

---
 pkg/txt/piece_table.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pkg/txt/piece_table.go b/pkg/txt/piece_table.go
index b64520c..db78918 100644
--- a/pkg/txt/piece_table.go
+++ b/pkg/txt/piece_table.go
@@ -113,13 +113,11 @@ func (p *piece) append(pieces ...*piece) {
 func (pt *PieceTable) Insert(text []byte, at int) {
 	idx := 0
 	var prev *piece
+	if pt.append == nil {
+		pt.append = bytes.NewBuffer(nil)
+	}
 	if pt.head == nil {
-		pt.head = &piece{
-			length: len(text),
-			offset: 0,
-			reader: bytes.NewReader(text),
-		}
-		return
+		pt.head = &piece{}
 	}
 	for p := pt.head; p != nil; p = p.next {
 		idx += p.length
-- 
2.43.0


From 5ece4bc8278c30c5268abf57d77aec7ca9d3b347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:53 +0000
Subject: [PATCH 20/52] fix: ed keeps its debugging output off standard output

---
 pkg/ed/ed.go     | 6 +++---
 pkg/ed/ed.peg    | 2 +-
 pkg/ed/ed.peg.go | 3 +--
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index df49cf7..dc97868 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -52,7 +52,7 @@ func (ed *Itor) Write() error {
 	var err error
 
 	tmpName := ed.filename + ".swp"
-	fmt.Printf("f is '%s', tmp is '%s'\n", ed.filename, tmpName)
+	debug("writing", ed.filename, "via", tmpName)
 
 	stat, err := os.Stat(ed.filename)
 	if err != nil {
@@ -239,13 +239,13 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 			p.Execute()
 		}
 		if s.Err() != nil {
-			fmt.Println("Err:", s.Err())
+			debug("Err:", s.Err())
 		}
 		close(cmds)
 	}()
 
 	for cmd := range cmds {
-		fmt.Println("cmd", cmd)
+		debug("cmd", cmd)
 		// Special-case quit command for now
 		if cmd.typ == ctquit {
 			break // TODO: checking
diff --git a/pkg/ed/ed.peg b/pkg/ed/ed.peg
index 26da4ad..4dadc68 100644
--- a/pkg/ed/ed.peg
+++ b/pkg/ed/ed.peg
@@ -64,7 +64,7 @@ shellCmd <- '!' <param> {
 # A null command works as a print
 nullCmd <- startAddr?
 
-text <- <(!textTerm .)*> textTerm {p.curCmd.text = buffer[begin:end]; fmt.Println("t", p.curCmd.text)}
+text <- <(!textTerm .)*> textTerm {p.curCmd.text = buffer[begin:end]}
 
 textTerm <- '\n.'
 
diff --git a/pkg/ed/ed.peg.go b/pkg/ed/ed.peg.go
index 5882678..c244f0f 100644
--- a/pkg/ed/ed.peg.go
+++ b/pkg/ed/ed.peg.go
@@ -448,7 +448,6 @@ func (p *Parser) Execute() {
 
 		case ruleAction8:
 			p.curCmd.text = buffer[begin:end]
-			fmt.Println("t", p.curCmd.text)
 		case ruleAction9:
 			p.curCmd.end = p.curCmd.start
 		case ruleAction10:
@@ -2305,7 +2304,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 48 Action8 <- <{p.curCmd.text = buffer[begin:end]; fmt.Println("t", p.curCmd.text)}> */
+		/* 48 Action8 <- <{p.curCmd.text = buffer[begin:end]}> */
 		func() bool {
 			{
 				add(ruleAction8, position)
-- 
2.43.0


From 4d451ead9dd482ae033b6b2c65b35e60e77a515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:54 +0000
Subject: [PATCH 21/52] fix: ed takes text with characters outside ASCII

---
 pkg/ed/ed.peg    | 16 ++++++++--------
 pkg/ed/ed.peg.go | 32 ++++++++++++++++----------------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/pkg/ed/ed.peg b/pkg/ed/ed.peg
index 4dadc68..b2f5458 100644
--- a/pkg/ed/ed.peg
+++ b/pkg/ed/ed.peg
@@ -38,19 +38,19 @@ addTextCmd <- startAddr? addTextC newLine text
 
 markCmd <- startAddr? 'k' <[a-z]> {
   p.curCmd.typ = ctmark
-  p.curCmd.params = []string{buffer[begin:end]}
+  p.curCmd.params = []string{text}
 }
 
 destCmd <- range? destC <addrO> {p.curCmd.dest = p.curAddr ; p.curAddr = address{}}
 
 readCmd <- startAddr? 'r' sp <param> {
   p.curCmd.typ = ctread
-  p.curCmd.text = buffer[begin:end]
+  p.curCmd.text = text
 }
 
 writeCmd <- range? 'w' sp <param> {
   p.curCmd.typ = ctwrite
-  p.curCmd.text = buffer[begin:end]
+  p.curCmd.text = text
 }
           / range? 'w' {
   p.curCmd.typ = ctwrite
@@ -58,13 +58,13 @@ writeCmd <- range? 'w' sp <param> {
 
 shellCmd <- '!' <param> {
   p.curCmd.typ = ctshell
-  p.curCmd.text = buffer[begin:end]
+  p.curCmd.text = text
 }
 
 # A null command works as a print
 nullCmd <- startAddr?
 
-text <- <(!textTerm .)*> textTerm {p.curCmd.text = buffer[begin:end]}
+text <- <(!textTerm .)*> textTerm {p.curCmd.text = text}
 
 textTerm <- '\n.'
 
@@ -81,14 +81,14 @@ range <- startAddr ',' endAddr
        / sp* ';' sp*           {p.curCmd.start = aCur; p.curCmd.end = aLast}
 
 
-addrCmd <- <startAddr> addrC {p.curCmd.start.text = buffer[begin:end]}
+addrCmd <- <startAddr> addrC {p.curCmd.start.text = text}
          / addrC
 
 # Addresses
 startAddr <- sp* addrO sp* {p.curCmd.start = p.curAddr; p.curAddr = address{}}
 endAddr <- sp* addrO sp* {p.curCmd.end = p.curAddr; p.curAddr = address{}}
 
-addrO <- <addr offset?>  {p.curAddr.text = buffer[begin:end]}
+addrO <- <addr offset?>  {p.curAddr.text = text}
 
 addr <- literalAddr
       / markAddr
@@ -120,7 +120,7 @@ bareCmd <- 'h' {p.curCmd.typ = cthelp}
 
 offset <- ('+'/'-') [0-9]*
 
-paramCmd <- paramC sp <param> { p.curCmd.params = []string{buffer[begin:end]}}
+paramCmd <- paramC sp <param> { p.curCmd.params = []string{text}}
           / paramC
 
 paramC <- 'e' {p.curCmd.typ = ctedit}
diff --git a/pkg/ed/ed.peg.go b/pkg/ed/ed.peg.go
index c244f0f..f3480c9 100644
--- a/pkg/ed/ed.peg.go
+++ b/pkg/ed/ed.peg.go
@@ -422,7 +422,7 @@ func (p *Parser) Execute() {
 		case ruleAction2:
 
 			p.curCmd.typ = ctmark
-			p.curCmd.params = []string{buffer[begin:end]}
+			p.curCmd.params = []string{text}
 
 		case ruleAction3:
 			p.curCmd.dest = p.curAddr
@@ -430,12 +430,12 @@ func (p *Parser) Execute() {
 		case ruleAction4:
 
 			p.curCmd.typ = ctread
-			p.curCmd.text = buffer[begin:end]
+			p.curCmd.text = text
 
 		case ruleAction5:
 
 			p.curCmd.typ = ctwrite
-			p.curCmd.text = buffer[begin:end]
+			p.curCmd.text = text
 
 		case ruleAction6:
 
@@ -444,10 +444,10 @@ func (p *Parser) Execute() {
 		case ruleAction7:
 
 			p.curCmd.typ = ctshell
-			p.curCmd.text = buffer[begin:end]
+			p.curCmd.text = text
 
 		case ruleAction8:
-			p.curCmd.text = buffer[begin:end]
+			p.curCmd.text = text
 		case ruleAction9:
 			p.curCmd.end = p.curCmd.start
 		case ruleAction10:
@@ -465,7 +465,7 @@ func (p *Parser) Execute() {
 			p.curCmd.start = aCur
 			p.curCmd.end = aLast
 		case ruleAction16:
-			p.curCmd.start.text = buffer[begin:end]
+			p.curCmd.start.text = text
 		case ruleAction17:
 			p.curCmd.start = p.curAddr
 			p.curAddr = address{}
@@ -473,7 +473,7 @@ func (p *Parser) Execute() {
 			p.curCmd.end = p.curAddr
 			p.curAddr = address{}
 		case ruleAction19:
-			p.curAddr.text = buffer[begin:end]
+			p.curAddr.text = text
 		case ruleAction20:
 			p.curAddr.typ = lCurrent
 		case ruleAction21:
@@ -499,7 +499,7 @@ func (p *Parser) Execute() {
 		case ruleAction31:
 			p.curCmd.typ = ctundo
 		case ruleAction32:
-			p.curCmd.params = []string{buffer[begin:end]}
+			p.curCmd.params = []string{text}
 		case ruleAction33:
 			p.curCmd.typ = ctedit
 		case ruleAction34:
@@ -2250,7 +2250,7 @@ func (p *Parser) Init() {
 		nil,
 		/* 42 Action2 <- <{
 		  p.curCmd.typ = ctmark
-		  p.curCmd.params = []string{buffer[begin:end]}
+		  p.curCmd.params = []string{text}
 		}> */
 		func() bool {
 			{
@@ -2267,7 +2267,7 @@ func (p *Parser) Init() {
 		},
 		/* 44 Action4 <- <{
 		  p.curCmd.typ = ctread
-		  p.curCmd.text = buffer[begin:end]
+		  p.curCmd.text = text
 		}> */
 		func() bool {
 			{
@@ -2277,7 +2277,7 @@ func (p *Parser) Init() {
 		},
 		/* 45 Action5 <- <{
 		  p.curCmd.typ = ctwrite
-		  p.curCmd.text = buffer[begin:end]
+		  p.curCmd.text = text
 		}> */
 		func() bool {
 			{
@@ -2296,7 +2296,7 @@ func (p *Parser) Init() {
 		},
 		/* 47 Action7 <- <{
 		  p.curCmd.typ = ctshell
-		  p.curCmd.text = buffer[begin:end]
+		  p.curCmd.text = text
 		}> */
 		func() bool {
 			{
@@ -2304,7 +2304,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 48 Action8 <- <{p.curCmd.text = buffer[begin:end]}> */
+		/* 48 Action8 <- <{p.curCmd.text = text}> */
 		func() bool {
 			{
 				add(ruleAction8, position)
@@ -2360,7 +2360,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 56 Action16 <- <{p.curCmd.start.text = buffer[begin:end]}> */
+		/* 56 Action16 <- <{p.curCmd.start.text = text}> */
 		func() bool {
 			{
 				add(ruleAction16, position)
@@ -2381,7 +2381,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 59 Action19 <- <{p.curAddr.text = buffer[begin:end]}> */
+		/* 59 Action19 <- <{p.curAddr.text = text}> */
 		func() bool {
 			{
 				add(ruleAction19, position)
@@ -2472,7 +2472,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 72 Action32 <- <{ p.curCmd.params = []string{buffer[begin:end]}}> */
+		/* 72 Action32 <- <{ p.curCmd.params = []string{text}}> */
 		func() bool {
 			{
 				add(ruleAction32, position)
-- 
2.43.0


From b95bf455189acfcbc0b89d63e26dde299c98bdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:30 +0000
Subject: [PATCH 22/52] fix: ed input text may have lines that start with a dot

---
 pkg/ed/ed.peg    | 2 +-
 pkg/ed/ed.peg.go | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/ed/ed.peg b/pkg/ed/ed.peg
index b2f5458..307d312 100644
--- a/pkg/ed/ed.peg
+++ b/pkg/ed/ed.peg
@@ -66,7 +66,7 @@ nullCmd <- startAddr?
 
 text <- <(!textTerm .)*> textTerm {p.curCmd.text = text}
 
-textTerm <- '\n.'
+textTerm <- '\n.' &'\n'
 
 rangeCmd <- range? sp* rangeC
 
diff --git a/pkg/ed/ed.peg.go b/pkg/ed/ed.peg.go
index f3480c9..614d26c 100644
--- a/pkg/ed/ed.peg.go
+++ b/pkg/ed/ed.peg.go
@@ -1083,7 +1083,7 @@ func (p *Parser) Init() {
 			position, tokenIndex = position64, tokenIndex64
 			return false
 		},
-		/* 12 textTerm <- <('\n' '.')> */
+		/* 12 textTerm <- <('\n' '.' &'\n')> */
 		func() bool {
 			position70, tokenIndex70 := position, tokenIndex
 			{
@@ -1096,6 +1096,9 @@ func (p *Parser) Init() {
 					goto l70
 				}
 				position++
+				if buffer[position] != rune('\n') {
+					goto l70
+				}
 				add(ruletextTerm, position71)
 			}
 			return true
-- 
2.43.0


From af5d68e36373f09f7c382a4d75d07b277a45c1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:50 +0000
Subject: [PATCH 23/52] fix: ed runs one command at a time, in order, whatever
 the length of the lines

---
 pkg/ed/ed.go | 86 ++++++++++++++++++++++++++++++----------------------
 1 file changed, 50 insertions(+), 36 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index dc97868..8ab1096 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -209,52 +209,66 @@ func (ed *Itor) Quit(force bool) error {
 func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 
 	ed.currentLine = len(ed.getLines())
-	cmds := make(chan Command)
-
-	go func() {
-		s := bufio.NewScanner(r)
-		for s.Scan() {
-			cmd := s.Text()
-
-			// Handle multi-line commands
-			if multlineCmdStart.Match([]byte(cmd)) {
-				for s.Scan() {
-					cmd += "\n" + s.Text()
-					if s.Text() == "." {
-						break
-					}
-				}
-			}
+	in := bufio.NewReader(r)
+	for {
+		cmd, ok := readLine(in)
+		if !ok {
+			return
+		}
 
-			debug("line", cmd)
-			p := &Parser{Buffer: cmd + "\n", Out: chan<- Command(cmds)}
-			p.Init()
-			err := p.Parse()
-			if err != nil {
-				//fmt.Println("Err!", err)
-				w.Write([]byte("?" + err.Error() + "\n"))
-				//close(cmds)
-				continue
+		// Handle multi-line commands
+		if multlineCmdStart.Match([]byte(cmd)) {
+			for {
+				line, ok := readLine(in)
+				if !ok {
+					break
+				}
+				cmd += "\n" + line
+				if line == "." {
+					break
+				}
 			}
-			p.Execute()
 		}
-		if s.Err() != nil {
-			debug("Err:", s.Err())
+
+		debug("line", cmd)
+		// The parser emits at most one command per line
+		cmds := make(chan Command, linesIn(cmd))
+		p := &Parser{Buffer: cmd + "\n", Out: chan<- Command(cmds)}
+		p.Init()
+		err := p.Parse()
+		if err != nil {
+			//fmt.Println("Err!", err)
+			w.Write([]byte("?" + err.Error() + "\n"))
+			//close(cmds)
+			continue
 		}
+		p.Execute()
 		close(cmds)
-	}()
 
-	for cmd := range cmds {
-		debug("cmd", cmd)
-		// Special-case quit command for now
-		if cmd.typ == ctquit {
-			break // TODO: checking
+		for cmd := range cmds {
+			debug("cmd", cmd)
+			// Special-case quit command for now
+			if cmd.typ == ctquit || cmd.typ == ctquitForce {
+				return // TODO: checking
+			}
+			result := ed.processCommand(cmd)
+			w.Write([]byte(result + "\n"))
 		}
-		result := ed.processCommand(cmd)
-		w.Write([]byte(result + "\n"))
 	}
 }
 
+// readLine returns the next line without its newline, and whether there was one
+func readLine(r *bufio.Reader) (line string, ok bool) {
+	line, err := r.ReadString('\n')
+	if err != nil && err != io.EOF {
+		debug("Err:", err)
+	}
+	if err != nil && line == "" {
+		return "", false
+	}
+	return strings.TrimSuffix(line, "\n"), true
+}
+
 func (ed *Itor) addrLine(a address) int {
 	var line int
 	switch a.typ {
-- 
2.43.0


From 1abb43f93ee7ab36c389340a697600890eb71ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:51 +0000
Subject: [PATCH 24/52] fix: ed keeps empty, long and unterminated last lines

---
 pkg/ed/ed.go | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 8ab1096..e636d8e 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -120,7 +120,7 @@ func (ed *Itor) number(start, end int) string {
 func (ed *Itor) String() string {
 	s := ed.pt.String()
 	// POSIX requires a file to end with a newline
-	if s[len(s)-1] != '\n' {
+	if s != "" && s[len(s)-1] != '\n' {
 		s += "\n"
 	}
 	return s
@@ -128,6 +128,10 @@ func (ed *Itor) String() string {
 
 func (ed *Itor) insertBeforeLine(lineNum int, text string) {
 	at := ed.getLineAddr(lineNum)
+	// The last line of a file may lack its newline
+	if at > 0 && ed.pt.String()[at-1] != '\n' {
+		text = "\n" + text
+	}
 	ed.pt.Insert([]byte(text+"\n"), at)
 }
 
@@ -146,10 +150,7 @@ func (ed *Itor) getLineAddr(num int) int {
 	length := 0
 	lines := ed.getLines()
 	if num > len(lines) {
-		for _, l := range lines {
-			length += len(l) + 1
-		}
-		return length
+		return len(ed.pt.String())
 	}
 	for i := 0; i < num-1; i++ {
 		length += len(lines[i]) + 1
@@ -159,20 +160,12 @@ func (ed *Itor) getLineAddr(num int) int {
 
 func (ed *Itor) getLines() (lines []string) {
 	// Retrieve the piece table's output and tokenize into lines
-	s := bufio.NewScanner(strings.NewReader(ed.pt.String()))
-	for s.Scan() {
-		lines = append(lines, s.Text())
-	}
-	if s.Err() != nil {
-		panic(s.Err())
-	}
-
-	// If there's an empty line at the end, remove it
-	// This happens when the file ends in a newline character
-	if len(lines) > 0 && lines[len(lines)-1] == "" {
-		lines = lines[:len(lines)-1]
+	text := ed.pt.String()
+	if text == "" {
+		return nil
 	}
-	return lines
+	// A newline at the end of the file ends its last line
+	return strings.Split(strings.TrimSuffix(text, "\n"), "\n")
 }
 
 func (ed *Itor) regexMatch(re string) (line int, found bool) {
-- 
2.43.0


From 4df76f5b354b963f5d524e8fc5c38a9b5a8315b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:26 +0000
Subject: [PATCH 25/52] fix: ed resolves offsets and searches, and answers ? to
 a bad address

---
 pkg/ed/ed.go | 136 ++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 107 insertions(+), 29 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index e636d8e..d18476c 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -168,7 +168,7 @@ func (ed *Itor) getLines() (lines []string) {
 	return strings.Split(strings.TrimSuffix(text, "\n"), "\n")
 }
 
-func (ed *Itor) regexMatch(re string) (line int, found bool) {
+func (ed *Itor) regexMatch(re string, backwards bool) (line int, found bool) {
 	lines := ed.getLines()
 	// TODO: Does this regex implemantion conform to spec?
 	regex, err := regexp.CompilePOSIX(re)
@@ -176,15 +176,24 @@ func (ed *Itor) regexMatch(re string) (line int, found bool) {
 		debug(err)
 		return -1, false
 	}
-	n := (ed.currentLine % len(lines)) + 1
-	for ; ; n = (n % len(lines)) + 1 {
+	n := ed.currentLine
+	for range lines {
+		// Search towards either end, and wrap around
+		if backwards {
+			n--
+		} else {
+			n++
+		}
+		if n < 1 {
+			n = len(lines)
+		}
+		if n > len(lines) {
+			n = 1
+		}
 		debug("n is", n)
 		if regex.Match([]byte(lines[n-1])) {
 			return n, true
 		}
-		if n == ed.currentLine {
-			return -1, false
-		}
 	}
 	return -1, false
 }
@@ -262,32 +271,70 @@ func readLine(r *bufio.Reader) (line string, ok bool) {
 	return strings.TrimSuffix(line, "\n"), true
 }
 
-func (ed *Itor) addrLine(a address) int {
+func (ed *Itor) addrLine(a address) (int, error) {
 	var line int
+	text := strings.TrimSpace(a.text)
+	offset := ""
 	switch a.typ {
 	case lCurrent:
 		line = ed.currentLine
+		offset = text[1:]
 	case lNum:
-		n, _ := strconv.Atoi(a.text)
+		offset = strings.TrimLeft(text, "0123456789")
+		n, err := strconv.Atoi(strings.TrimSuffix(text, offset))
+		if err != nil {
+			return 0, err
+		}
 		line = n
 	case lLast:
 		n := len(ed.getLines())
 		line = n
-	case lRegex:
-		regex := strings.Trim(a.text, "/")
-		n, found := ed.regexMatch(regex)
-		line = n
+		offset = text[1:]
+	case lRegex, lRegexReverse:
+		last := strings.LastIndex(text, text[:1])
+		n, found := ed.regexMatch(text[1:last], a.typ == lRegexReverse)
 		if !found {
-			debug("oh no we don't have any way to communicate the invalid address")
+			return 0, fmt.Errorf("no match for %s", text)
 		}
-	//case lRegexReverse:
-	//n := ed.regexMatchReverse(a.text)
-	//line = n
+		line = n
+		offset = text[last+1:]
 	default:
-		panic("Dunno a bout address")
+		return 0, fmt.Errorf("Dunno a bout address %s", text)
+	}
+
+	// A sign without a number counts as one line
+	if offset == "+" || offset == "-" {
+		offset += "1"
+	}
+	if offset != "" {
+		n, err := strconv.Atoi(offset)
+		if err != nil {
+			return 0, err
+		}
+		line += n
 	}
 
-	return line + a.offset
+	return line + a.offset, nil
+}
+
+// addrRange finds the lines that cmd addresses. They must lie between first
+// and the last line of the buffer.
+func (ed *Itor) addrRange(cmd Command, first int) (start, end int, err error) {
+	start, err = ed.addrLine(cmd.start)
+	if err != nil {
+		return 0, 0, err
+	}
+	end = start
+	if cmd.end.typ != lNull {
+		end, err = ed.addrLine(cmd.end)
+		if err != nil {
+			return 0, 0, err
+		}
+	}
+	if start < first || end < start || end > len(ed.getLines()) {
+		return 0, 0, fmt.Errorf("invalid address")
+	}
+	return start, end, nil
 }
 
 func linesIn(s string) int {
@@ -316,12 +363,23 @@ func (ed *Itor) processCommand(cmd Command) string {
 		}
 
 	case ctprint:
-		return ed.Print(ed.addrLine(cmd.start), ed.addrLine(cmd.end))
+		start, end, err := ed.addrRange(cmd, 1)
+		if err != nil {
+			return "?" + err.Error()
+		}
+		return ed.Print(start, end)
 
 	case ctnumber:
-		return ed.number(ed.addrLine(cmd.start), ed.addrLine(cmd.end))
+		start, end, err := ed.addrRange(cmd, 1)
+		if err != nil {
+			return "?" + err.Error()
+		}
+		return ed.number(start, end)
 	case ctnull:
-		lineNum := ed.addrLine(cmd.start)
+		lineNum, _, err := ed.addrRange(cmd, 1)
+		if err != nil {
+			return "?" + err.Error()
+		}
 		ed.currentLine = lineNum
 		return ed.Print(lineNum, lineNum)
 
@@ -332,30 +390,50 @@ func (ed *Itor) processCommand(cmd Command) string {
 		}
 
 	case ctdelete:
-		err := ed.Delete(ed.addrLine(cmd.start), ed.addrLine(cmd.end))
+		start, end, err := ed.addrRange(cmd, 1)
+		if err != nil {
+			return "?" + err.Error()
+		}
+		err = ed.Delete(start, end)
 		if err != nil {
 			return "?" + err.Error()
 		}
-		ed.currentLine = ed.addrLine(cmd.start)
+		ed.currentLine = start
 
 	case ctappend:
-		start := ed.addrLine(cmd.start) + 1
+		line, _, err := ed.addrRange(cmd, 0)
+		if err != nil {
+			return "?" + err.Error()
+		}
+		start := line + 1
 		ed.insertBeforeLine(start, cmd.text)
 		ed.currentLine = start + linesIn(cmd.text)
 
 	case ctinsert:
-		ed.insertBeforeLine(ed.addrLine(cmd.start), cmd.text)
+		line, _, err := ed.addrRange(cmd, 0)
+		if err != nil {
+			return "?" + err.Error()
+		}
+		ed.insertBeforeLine(line, cmd.text)
 
 	case ctchange:
-		err := ed.Delete(ed.addrLine(cmd.start), ed.addrLine(cmd.end))
+		start, end, err := ed.addrRange(cmd, 1)
+		if err != nil {
+			return "?" + err.Error()
+		}
+		err = ed.Delete(start, end)
 		if err != nil {
 			return "?" + err.Error()
 		}
-		ed.insertBeforeLine(ed.addrLine(cmd.start), cmd.text)
-		ed.currentLine = ed.addrLine(cmd.start) + linesIn(cmd.text)
+		ed.insertBeforeLine(start, cmd.text)
+		ed.currentLine = start + linesIn(cmd.text)
 
 	case ctlineNumber:
-		return strconv.Itoa(ed.addrLine(cmd.start))
+		line, _, err := ed.addrRange(cmd, 0)
+		if err != nil {
+			return "?" + err.Error()
+		}
+		return strconv.Itoa(line)
 
 	default:
 		return "? (NYI)"
-- 
2.43.0


From 5a7d43f42bb0675052257dcf5120ca8e44e0598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:26 +0000
Subject: [PATCH 26/52] fix: ed's current line is the last line printed or
 inserted

---
 pkg/ed/ed.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index d18476c..d984a27 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -367,6 +367,7 @@ func (ed *Itor) processCommand(cmd Command) string {
 		if err != nil {
 			return "?" + err.Error()
 		}
+		ed.currentLine = end
 		return ed.Print(start, end)
 
 	case ctnumber:
@@ -374,6 +375,7 @@ func (ed *Itor) processCommand(cmd Command) string {
 		if err != nil {
 			return "?" + err.Error()
 		}
+		ed.currentLine = end
 		return ed.number(start, end)
 	case ctnull:
 		lineNum, _, err := ed.addrRange(cmd, 1)
@@ -398,7 +400,11 @@ func (ed *Itor) processCommand(cmd Command) string {
 		if err != nil {
 			return "?" + err.Error()
 		}
+		// The line after the deleted ones, or the new last line
 		ed.currentLine = start
+		if last := len(ed.getLines()); start > last {
+			ed.currentLine = last
+		}
 
 	case ctappend:
 		line, _, err := ed.addrRange(cmd, 0)
@@ -407,14 +413,19 @@ func (ed *Itor) processCommand(cmd Command) string {
 		}
 		start := line + 1
 		ed.insertBeforeLine(start, cmd.text)
-		ed.currentLine = start + linesIn(cmd.text)
+		ed.currentLine = start + linesIn(cmd.text) - 1
 
 	case ctinsert:
 		line, _, err := ed.addrRange(cmd, 0)
 		if err != nil {
 			return "?" + err.Error()
 		}
+		// Line 0 stands for line 1 here
+		if line == 0 {
+			line = 1
+		}
 		ed.insertBeforeLine(line, cmd.text)
+		ed.currentLine = line + linesIn(cmd.text) - 1
 
 	case ctchange:
 		start, end, err := ed.addrRange(cmd, 1)
@@ -426,7 +437,7 @@ func (ed *Itor) processCommand(cmd Command) string {
 			return "?" + err.Error()
 		}
 		ed.insertBeforeLine(start, cmd.text)
-		ed.currentLine = start + linesIn(cmd.text)
+		ed.currentLine = start + linesIn(cmd.text) - 1
 
 	case ctlineNumber:
 		line, _, err := ed.addrRange(cmd, 0)
-- 
2.43.0


From 20d80a25472531396adace59d37d440f421c0228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:27 +0000
Subject: [PATCH 27/52] fix: ed reads the text of a, i and c after any address

---
 pkg/ed/ed.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index d984a27..ad5f8b6 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -14,8 +14,10 @@ import (
 	"github.com/fwip/posix-utils/pkg/txt"
 )
 
-// TODO: This is not comprehensive.
-var multlineCmdStart = regexp.MustCompile(`^\s*[0-9.$]*\s*,?\s*[0-9.$]*\s*[aic]\s*$`)
+// Any address, see addrO in ed.peg
+const addrPattern = `([0-9]+|[.$]|'[a-z]|/(\\/|[^/])+/|\?(\\\?|[^?])+\?)([+-][0-9]*)?`
+
+var multlineCmdStart = regexp.MustCompile(`^\s*(` + addrPattern + `)?\s*([,;]\s*(` + addrPattern + `)?\s*)?[aic]\s*$`)
 
 func debug(args ...interface{}) {
 	fmt.Fprintln(os.Stderr, args...)
-- 
2.43.0


From 47bff080006cd6b8aec2946ba4f9ffade1a05020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:27 +0000
Subject: [PATCH 28/52] fix: ed's ; makes the second address relative to the
 first

---
 pkg/ed/command.go |  1 +
 pkg/ed/ed.go      |  5 +++++
 pkg/ed/ed.peg     |  2 +-
 pkg/ed/ed.peg.go  | 18 ++++++++++++++++--
 4 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/pkg/ed/command.go b/pkg/ed/command.go
index 0df7ebe..0297442 100644
--- a/pkg/ed/command.go
+++ b/pkg/ed/command.go
@@ -5,6 +5,7 @@ type Command struct {
 	typ    cmdType
 	start  address
 	end    address
+	moves  bool // end is relative to start, not to the current line (';')
 	dest   address
 	text   string
 	params []string
diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index ad5f8b6..f0e89a7 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -328,7 +328,12 @@ func (ed *Itor) addrRange(cmd Command, first int) (start, end int, err error) {
 	}
 	end = start
 	if cmd.end.typ != lNull {
+		current := ed.currentLine
+		if cmd.moves {
+			ed.currentLine = start
+		}
 		end, err = ed.addrLine(cmd.end)
+		ed.currentLine = current
 		if err != nil {
 			return 0, 0, err
 		}
diff --git a/pkg/ed/ed.peg b/pkg/ed/ed.peg
index 307d312..451ed0b 100644
--- a/pkg/ed/ed.peg
+++ b/pkg/ed/ed.peg
@@ -73,7 +73,7 @@ rangeCmd <- range? sp* rangeC
 range <- startAddr ',' endAddr
        / startAddr ',' sp*     {p.curCmd.end = p.curCmd.start}
        / ',' endAddr sp*       {p.curCmd.start = aFirst}
-       / startAddr ';' endAddr
+       / startAddr ';' endAddr {p.curCmd.moves = true}
        / startAddr ';' sp*     {p.curCmd.end = p.curCmd.start}
        / ';' endAddr sp*       {p.curCmd.start = aCur}
        / startAddr sp*         {p.curCmd.end = p.curCmd.start}
diff --git a/pkg/ed/ed.peg.go b/pkg/ed/ed.peg.go
index 614d26c..b5a0be4 100644
--- a/pkg/ed/ed.peg.go
+++ b/pkg/ed/ed.peg.go
@@ -104,6 +104,7 @@ const (
 	ruleAction44
 	ruleAction45
 	ruleAction46
+	ruleAction47
 )
 
 var rul3s = [...]string{
@@ -194,6 +195,7 @@ var rul3s = [...]string{
 	"Action44",
 	"Action45",
 	"Action46",
+	"Action47",
 }
 
 type token32 struct {
@@ -316,7 +318,7 @@ type Parser struct {
 
 	Buffer string
 	buffer []rune
-	rules  [87]func() bool
+	rules  [88]func() bool
 	parse  func(rule ...int) error
 	reset  func()
 	Pretty bool
@@ -528,6 +530,8 @@ func (p *Parser) Execute() {
 			p.curCmd.typ = ctmove
 		case ruleAction46:
 			p.curCmd.typ = ctcopy
+		case ruleAction47:
+			p.curCmd.moves = true
 
 		}
 	}
@@ -1141,7 +1145,7 @@ func (p *Parser) Init() {
 			position, tokenIndex = position72, tokenIndex72
 			return false
 		},
-		/* 14 range <- <((startAddr ',' endAddr) / (startAddr ',' Action9) / (',' endAddr Action10) / (startAddr ';' endAddr) / (startAddr ';' Action11) / (';' endAddr Action12) / (startAddr Action13) / (',' Action14) / (';' Action15))> */
+		/* 14 range <- <((startAddr ',' endAddr) / (startAddr ',' Action9) / (',' endAddr Action10) / (startAddr ';' endAddr Action47) / (startAddr ';' Action11) / (';' endAddr Action12) / (startAddr Action13) / (',' Action14) / (';' Action15))> */
 		func() bool {
 			position78, tokenIndex78 := position, tokenIndex
 			{
@@ -1197,6 +1201,9 @@ func (p *Parser) Init() {
 					if !_rules[ruleendAddr]() {
 						goto l84
 					}
+					if !_rules[ruleAction47]() {
+						goto l84
+					}
 					goto l80
 				l84:
 					position, tokenIndex = position80, tokenIndex80
@@ -2580,6 +2587,13 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
+		/* 87 Action47 <- <{p.curCmd.moves = true}> */
+		func() bool {
+			{
+				add(ruleAction47, position)
+			}
+			return true
+		},
 	}
 	p.rules = _rules
 }
-- 
2.43.0


From 0a1ddb6b260aeb05f312d5254e3cca1e148d3b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:55 +0000
Subject: [PATCH 29/52] fix: ed answers ? when a file cannot be edited, and
 keeps the old buffer

---
 pkg/ed/ed.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index f0e89a7..05d26f9 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -84,20 +84,15 @@ func (ed *Itor) Edit(filename string, force bool) error {
 	if !force && ed.unsaved() {
 		panic("oh no you haven't saved")
 	}
-	f, err := os.Open(filename)
+	data, err := ioutil.ReadFile(filename)
 	if err != nil {
-		debug("cannae open", err)
-		return err
-	}
-	stat, err := f.Stat()
-	if err != nil {
-		debug("cannae stat", err)
+		debug("cannae read", err)
 		return err
 	}
 
 	debug("setting filename")
 	ed.filename = filename
-	ed.pt = txt.NewPieceTable(f, int(stat.Size()))
+	ed.pt = txt.NewPieceTable(bytes.NewReader(data), len(data))
 	ed.currentLine = len(ed.getLines())
 
 	return nil
@@ -360,13 +355,13 @@ func (ed *Itor) processCommand(cmd Command) string {
 	cmd = setDefaultAddresses(cmd)
 	switch cmd.typ {
 	case ctedit:
-		var filename string
+		filename := ed.filename
 		if len(cmd.params) > 0 {
 			filename = cmd.params[0]
 		}
 		err = ed.Edit(filename, false)
 		if err != nil {
-			return err.Error()
+			return "?" + err.Error()
 		}
 
 	case ctprint:
-- 
2.43.0


From 2a98c02357b1f67f7f86f79737e113e7ba24b75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:55 +0000
Subject: [PATCH 30/52] fix: a failed write leaves ed's buffer, the file and
 other files as they were

---
 pkg/ed/ed.go | 61 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 21 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 05d26f9..e16103b 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -42,40 +42,59 @@ func (ed *Itor) unsaved() bool {
 	return false
 }
 
-func (ed *Itor) closeFile() error {
-	ed.pt.Close()
-	return nil
-}
-
 func (ed *Itor) Write() error {
-	data := ed.pt.String()
-	ed.closeFile()
-
-	var err error
-
-	tmpName := ed.filename + ".swp"
-	debug("writing", ed.filename, "via", tmpName)
+	return writeFile(ed.filename, ed.pt.String())
+}
 
-	stat, err := os.Stat(ed.filename)
-	if err != nil {
-		debug("cannae stat", ed.filename)
+// writeFile replaces the file's contents, or leaves it as it was
+func writeFile(filename string, data string) error {
+	mode := os.FileMode(0666)
+	stat, err := os.Stat(filename)
+	if err == nil {
+		mode = stat.Mode()
+		if !mode.IsRegular() {
+			// Don't replace a device by a file
+			return ioutil.WriteFile(filename, []byte(data), mode)
+		}
+	} else if !os.IsNotExist(err) {
+		debug("cannae stat", filename)
 		return err
 	}
-	mode := stat.Mode()
-	//defer os.Remove(tmp.Name())
 
-	err = ioutil.WriteFile(tmpName, []byte(data), os.FileMode(mode))
+	tmp, err := createSwapFile(filename, mode)
 	if err != nil {
-		os.Remove(tmpName)
 		return err
 	}
-	err = os.Rename(tmpName, ed.filename)
+	tmpName := tmp.Name()
+	debug("writing", filename, "via", tmpName)
+
+	_, err = tmp.WriteString(data)
+	if err == nil && stat != nil {
+		err = tmp.Chmod(mode)
+	}
+	if closeErr := tmp.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(tmpName, filename)
+	}
 	if err != nil {
 		os.Remove(tmpName)
 		return err
 	}
+	return nil
+}
 
-	return ed.Edit(ed.filename, false)
+// createSwapFile creates a new file next to filename
+func createSwapFile(filename string, mode os.FileMode) (*os.File, error) {
+	tmpName := filename + ".swp"
+	for i := 1; ; i++ {
+		f, err := os.OpenFile(tmpName, os.O_WRONLY|os.O_CREATE|os.O_EXCL, mode)
+		if !os.IsExist(err) {
+			return f, err
+		}
+		tmpName = fmt.Sprintf("%s.swp%d", filename, i)
+	}
 }
 
 // Edit opens a new file to edit!
-- 
2.43.0


From 545f1b5b951258e5ee73139a875996a608f730ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:56 +0000
Subject: [PATCH 31/52] fix: ed's w writes the addressed lines to the named
 file

---
 pkg/ed/address.go |  3 ++-
 pkg/ed/ed.go      | 27 ++++++++++++++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/pkg/ed/address.go b/pkg/ed/address.go
index cb5d4d8..d7d051b 100644
--- a/pkg/ed/address.go
+++ b/pkg/ed/address.go
@@ -99,7 +99,8 @@ var defaultAddresses = [...][2]address{
 
 func setDefaultAddresses(cmd Command) Command {
 
-	if cmd.start.typ == lNull {
+	// Without addresses, w writes the whole buffer, even when that is empty
+	if cmd.start.typ == lNull && cmd.typ != ctwrite {
 		cmd.start = defaultAddresses[cmd.typ][0]
 		if cmd.end.typ == lNull {
 			cmd.end = defaultAddresses[cmd.typ][1]
diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index e16103b..52ea633 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -46,6 +46,31 @@ func (ed *Itor) Write() error {
 	return writeFile(ed.filename, ed.pt.String())
 }
 
+// writeLines writes the lines that cmd addresses to the file it names. By
+// default that is all of them, to the current file.
+func (ed *Itor) writeLines(cmd Command) error {
+	data := ed.pt.String()
+	if cmd.start.typ != lNull {
+		start, end, err := ed.addrRange(cmd, 1)
+		if err != nil {
+			return err
+		}
+		data = data[ed.getLineAddr(start):ed.getLineAddr(end+1)]
+	}
+	filename := cmd.text
+	if filename == "" {
+		filename = ed.filename
+	}
+	if filename == "" {
+		return fmt.Errorf("no current filename")
+	}
+	err := writeFile(filename, data)
+	if err == nil && ed.filename == "" {
+		ed.filename = filename
+	}
+	return err
+}
+
 // writeFile replaces the file's contents, or leaves it as it was
 func writeFile(filename string, data string) error {
 	mode := os.FileMode(0666)
@@ -407,7 +432,7 @@ func (ed *Itor) processCommand(cmd Command) string {
 		return ed.Print(lineNum, lineNum)
 
 	case ctwrite:
-		err = ed.Write()
+		err = ed.writeLines(cmd)
 		if err != nil {
 			return "?" + err.Error()
 		}
-- 
2.43.0


From 9c5c98bf22068491cee25161a3df1e024647e0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:10 +0000
Subject: [PATCH 32/52] fix: locale definitions may redefine the comment
 character and have blank lines

---
 pkg/locale/localelex.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index 45bedc3..4b7a4bf 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -511,9 +511,12 @@ func removeComments(input string) string {
 		if c, _ := utf8.DecodeRuneInString(l); c == commentChar {
 			continue
 		}
+		if strings.TrimSpace(l) == "" {
+			continue
+		}
 		// Check for escape/comment_char redefinition
-		checkSpecialWord(l, "comment_char", &commentChar)
-		if !checkSpecialWord(l, "escape_char", &escapeChar) {
+		if !checkSpecialWord(l, "comment_char", &commentChar) &&
+			!checkSpecialWord(l, "escape_char", &escapeChar) {
 
 			// Join newlines if they end with escape character
 			for len(l) > 0 {
-- 
2.43.0


From eee0656b7ef4fd629a96e63e1744d4d2540a225f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:10 +0000
Subject: [PATCH 33/52] fix: malformed locale definitions are rejected, not
 ignored or read forever

---
 pkg/locale/localelex.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index 4b7a4bf..4cebf72 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -155,6 +155,9 @@ func sCategory(l *lexer.L) lexer.StateFunc {
 		next = getsGenericCategory(header, typ, msgMap)
 	}
 	if next == nil {
+		if header != "" || l.Peek() != lexer.EOFRune {
+			l.Error(fmt.Sprintf("expected a category, got '%s'", header))
+		}
 		return nil
 	}
 	l.Emit(typ)
@@ -275,7 +278,7 @@ func grabInt(l *lexer.L) bool {
 	if n == "" {
 		return false
 	}
-	if n == "-" || (len(n) > 2 && strings.ContainsRune(n[1:], '-')) {
+	if n == "-" || (len(n) > 1 && strings.ContainsRune(n[1:], '-')) {
 		l.Error(fmt.Sprintf("expected integer, got %s", n))
 	}
 	l.Emit(NUMBER)
@@ -340,7 +343,7 @@ func grabString(l *lexer.L) (ok bool) {
 			l.Emit('"')
 			return true
 		}
-		if r == '\n' {
+		if r == '\n' || r == lexer.EOFRune {
 			l.Error(fmt.Sprintf("Aww jeez. Got a newline before an end quote"))
 			return false
 		}
@@ -369,7 +372,11 @@ func grabMsg(l *lexer.L) (ok bool) {
 		return false
 	}
 	l.Emit('"')
-	for l.Next() != '"' {
+	for r := l.Next(); r != '"'; r = l.Next() {
+		if r == '\n' || r == lexer.EOFRune {
+			l.Error("expected an end quote")
+			return false
+		}
 	}
 	l.Rewind()
 	l.Emit(EXTENDED_REG_EXP)
@@ -416,6 +423,8 @@ func sCollateCategory(l *lexer.L) lexer.StateFunc {
 		must(grabString, l)
 		grabWhitespace(l)
 		must(grabNewline, l)
+	default:
+		l.Error(fmt.Sprintf("unexpected keyword '%s'", word))
 	}
 
 	return sCollateCategory
@@ -434,6 +443,8 @@ func sCollateOrderStart(l *lexer.L) lexer.StateFunc {
 		l.Emit(BACKWARD_STR)
 	case "position":
 		l.Emit(POSITION_STR)
+	default:
+		l.Error(fmt.Sprintf("unexpected keyword '%s'", l.Current()))
 	}
 	return sCollateOrderStart
 }
-- 
2.43.0


From b4bf6aaa71cc9da963c306203b1d65a634dba7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:11 +0000
Subject: [PATCH 34/52] fix: record int_frac_digits and empty strings, and take
 lists as numeric grouping

---
 pkg/locale/localedef.y  | 12 ++++++------
 pkg/locale/localelex.go |  2 +-
 pkg/locale/y.go         | 16 +++++++++++-----
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/pkg/locale/localedef.y b/pkg/locale/localedef.y
index f707a33..173acc7 100644
--- a/pkg/locale/localedef.y
+++ b/pkg/locale/localedef.y
@@ -15,13 +15,13 @@ func assignMonetaryString (tok yySymType, value string) {
   }
 }
 
-func assignMonetaryNumber (tok int, value string) {
+func assignMonetaryNumber (tok yySymType, value string) {
   n, err := strconv.Atoi(value)
   if err != nil {
     panic("Can't convert " + value + " to integer")
   }
-  switch tok {
-  case INT_FRAC_DIGITS_STR:
+  switch tok.val {
+  case "int_frac_digits":
     def.monetary.intFracDigits = n
   default:
     //panic("NYI" + value)
@@ -413,8 +413,8 @@ monetary_keywords   : monetary_keywords monetary_keyword
 
 
 monetary_keyword    : mon_keyword_string mon_string EOL       {assignMonetaryString($1, $2.val)}
-                    | mon_keyword_char NUMBER EOL             {assignMonetaryNumber($1.yys, $2.val)}
-                    | mon_keyword_char NEGATIVE_ONE_STR   EOL {assignMonetaryNumber($1.yys, "-1")}
+                    | mon_keyword_char NUMBER EOL             {assignMonetaryNumber($1, $2.val)}
+                    | mon_keyword_char NEGATIVE_ONE_STR   EOL {assignMonetaryNumber($1, "-1")}
                     | mon_keyword_grouping mon_group_list EOL {assignMonetaryGrouping($1.yys, $2.val)}
                     ;
 
@@ -426,7 +426,7 @@ mon_keyword_string  : INT_CURR_SYMBOL_STR | CURRENCY_SYMBOL_STR
 
 
 mon_string          : '"' char_list '"' { $$ = $2 }
-                    | TWO_DOUBLE_QUOTE_STR
+                    | TWO_DOUBLE_QUOTE_STR { $$.val = "" }
                     ;
 
 
diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index 4cebf72..d08cf25 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -65,7 +65,7 @@ var timeMap = map[string]decode{
 var numericMap = map[string]decode{
 	"decimal_point": {DECIMAL_POINT_STR, grabString},
 	"thousands_sep": {THOUSANDS_SEP_STR, grabString},
-	"grouping":      {GROUPING_STR, grabInt},
+	"grouping":      {GROUPING_STR, grabIntList},
 }
 
 // Monetary mappings
diff --git a/pkg/locale/y.go b/pkg/locale/y.go
index beb6849..6defed4 100644
--- a/pkg/locale/y.go
+++ b/pkg/locale/y.go
@@ -25,13 +25,13 @@ func assignMonetaryString(tok yySymType, value string) {
 	}
 }
 
-func assignMonetaryNumber(tok int, value string) {
+func assignMonetaryNumber(tok yySymType, value string) {
 	n, err := strconv.Atoi(value)
 	if err != nil {
 		panic("Can't convert " + value + " to integer")
 	}
-	switch tok {
-	case INT_FRAC_DIGITS_STR:
+	switch tok.val {
+	case "int_frac_digits":
 		def.monetary.intFracDigits = n
 	default:
 		//panic("NYI" + value)
@@ -856,13 +856,13 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line localedef.y:419
 		{
-			assignMonetaryNumber(yyDollar[1].yys, yyDollar[2].val)
+			assignMonetaryNumber(yyDollar[1], yyDollar[2].val)
 		}
 	case 122:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line localedef.y:420
 		{
-			assignMonetaryNumber(yyDollar[1].yys, "-1")
+			assignMonetaryNumber(yyDollar[1], "-1")
 		}
 	case 123:
 		yyDollar = yyS[yypt-3 : yypt+1]
@@ -876,6 +876,12 @@ yydefault:
 		{
 			yyVAL = yyDollar[2]
 		}
+	case 131:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line localedef.y:432
+		{
+			yyVAL.val = ""
+		}
 	case 148:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line localedef.y:451
-- 
2.43.0


From 0c468399ce866f7d3b48890a702b5157c4a627b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:11 +0000
Subject: [PATCH 35/52] fix: NewEra rejects an offset that is not a number

---
 pkg/locale/time.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/locale/time.go b/pkg/locale/time.go
index ffeb1c7..701e57e 100644
--- a/pkg/locale/time.go
+++ b/pkg/locale/time.go
@@ -65,7 +65,7 @@ func NewEra(input string) (Era, error) {
 	// Offset
 	offset, err := strconv.Atoi(parts[1])
 	if err != nil {
-		return Era{}, nil
+		return Era{}, err
 	}
 	era.offset = offset
 
-- 
2.43.0


From 32fc8959309588f7d9b99210448b36214d3ee6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:46 +0000
Subject: [PATCH 36/52] fix: tsort takes items of any length

---
 cmd/tsort/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/tsort/main.go b/cmd/tsort/main.go
index 6fbcff9..c4bdb21 100644
--- a/cmd/tsort/main.go
+++ b/cmd/tsort/main.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"os"
 
 	"github.com/fwip/posix-utils/pkg/tsort"
@@ -18,6 +19,7 @@ func run(input io.Reader, output io.Writer) {
 	var sorter tsort.Sorter
 	scanner := bufio.NewScanner(input)
 	scanner.Split(bufio.ScanWords)
+	scanner.Buffer(nil, math.MaxInt32) // Words may be longer than the default limit
 
 	for scanner.Scan() {
 		w1 := scanner.Text()
-- 
2.43.0


From 65007fb401e70c9810c0e486b311b05e7c93b83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:55 +0000
Subject: [PATCH 37/52] fix: the piece table takes sources that report EOF with
 the last bytes

---
 pkg/txt/piece_table.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/txt/piece_table.go b/pkg/txt/piece_table.go
index db78918..33a258d 100644
--- a/pkg/txt/piece_table.go
+++ b/pkg/txt/piece_table.go
@@ -62,10 +62,11 @@ func (p piece) Read(bytes []byte) (int, error) {
 	n := 0
 	for n < p.length {
 		i, err := p.reader.ReadAt(bytes[n:p.length], p.offset+int64(n))
-		if err != nil {
+		n += i
+		// The reader may report EOF along with the last bytes
+		if err != nil && !(err == io.EOF && n == p.length) {
 			return 0, err
 		}
-		n += i
 	}
 	if n != p.length {
 		return 0, fmt.Errorf("Meant to read %d bytes, read %d instead", p.length, n)
-- 
2.43.0


From 2db581dcae581e3807eb9a307df392942bfb7288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:29 +0000
Subject: [PATCH 38/52] fix: ed's a, i and c may have no text

---
 pkg/ed/ed.go     | 28 ++++++++++++++++++++--------
 pkg/ed/ed.peg    |  5 +++--
 pkg/ed/ed.peg.go | 20 ++++++++++++++------
 3 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 52ea633..25508c3 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -167,11 +167,15 @@ func (ed *Itor) String() string {
 	return s
 }
 
+// insertBeforeLine inserts the lines of text, each of which follows a newline
 func (ed *Itor) insertBeforeLine(lineNum int, text string) {
+	if text == "" {
+		return
+	}
 	at := ed.getLineAddr(lineNum)
 	// The last line of a file may lack its newline
-	if at > 0 && ed.pt.String()[at-1] != '\n' {
-		text = "\n" + text
+	if at == 0 || ed.pt.String()[at-1] == '\n' {
+		text = text[1:]
 	}
 	ed.pt.Insert([]byte(text+"\n"), at)
 }
@@ -457,9 +461,8 @@ func (ed *Itor) processCommand(cmd Command) string {
 		if err != nil {
 			return "?" + err.Error()
 		}
-		start := line + 1
-		ed.insertBeforeLine(start, cmd.text)
-		ed.currentLine = start + linesIn(cmd.text) - 1
+		ed.insertBeforeLine(line+1, cmd.text)
+		ed.currentLine = line + linesIn(cmd.text) - 1
 
 	case ctinsert:
 		line, _, err := ed.addrRange(cmd, 0)
@@ -467,11 +470,14 @@ func (ed *Itor) processCommand(cmd Command) string {
 			return "?" + err.Error()
 		}
 		// Line 0 stands for line 1 here
-		if line == 0 {
+		if line == 0 && cmd.text != "" {
 			line = 1
 		}
 		ed.insertBeforeLine(line, cmd.text)
-		ed.currentLine = line + linesIn(cmd.text) - 1
+		ed.currentLine = line
+		if n := linesIn(cmd.text) - 1; n > 0 {
+			ed.currentLine += n - 1
+		}
 
 	case ctchange:
 		start, end, err := ed.addrRange(cmd, 1)
@@ -483,7 +489,13 @@ func (ed *Itor) processCommand(cmd Command) string {
 			return "?" + err.Error()
 		}
 		ed.insertBeforeLine(start, cmd.text)
-		ed.currentLine = start + linesIn(cmd.text) - 1
+		// Without any text this is a deletion
+		ed.currentLine = start
+		if n := linesIn(cmd.text) - 1; n > 0 {
+			ed.currentLine += n - 1
+		} else if last := len(ed.getLines()); start > last {
+			ed.currentLine = last
+		}
 
 	case ctlineNumber:
 		line, _, err := ed.addrRange(cmd, 0)
diff --git a/pkg/ed/ed.peg b/pkg/ed/ed.peg
index 451ed0b..1797c47 100644
--- a/pkg/ed/ed.peg
+++ b/pkg/ed/ed.peg
@@ -33,8 +33,9 @@ cmd <- bareCmd
      / nullCmd
 
 
-changeTextCmd <- range? changeTextC newLine text
-addTextCmd <- startAddr? addTextC newLine text
+# The text starts with the newline after the command, unless there is no text
+changeTextCmd <- range? changeTextC &newLine text
+addTextCmd <- startAddr? addTextC &newLine text
 
 markCmd <- startAddr? 'k' <[a-z]> {
   p.curCmd.typ = ctmark
diff --git a/pkg/ed/ed.peg.go b/pkg/ed/ed.peg.go
index b5a0be4..656765a 100644
--- a/pkg/ed/ed.peg.go
+++ b/pkg/ed/ed.peg.go
@@ -766,7 +766,7 @@ func (p *Parser) Init() {
 			position, tokenIndex = position11, tokenIndex11
 			return false
 		},
-		/* 3 changeTextCmd <- <(range? changeTextC newLine text)> */
+		/* 3 changeTextCmd <- <(range? changeTextC &newLine text)> */
 		func() bool {
 			position25, tokenIndex25 := position, tokenIndex
 			{
@@ -784,8 +784,12 @@ func (p *Parser) Init() {
 				if !_rules[rulechangeTextC]() {
 					goto l25
 				}
-				if !_rules[rulenewLine]() {
-					goto l25
+				{
+					position25n, tokenIndex25n := position, tokenIndex
+					if !_rules[rulenewLine]() {
+						goto l25
+					}
+					position, tokenIndex = position25n, tokenIndex25n
 				}
 				if !_rules[ruletext]() {
 					goto l25
@@ -797,7 +801,7 @@ func (p *Parser) Init() {
 			position, tokenIndex = position25, tokenIndex25
 			return false
 		},
-		/* 4 addTextCmd <- <(startAddr? addTextC newLine text)> */
+		/* 4 addTextCmd <- <(startAddr? addTextC &newLine text)> */
 		func() bool {
 			position29, tokenIndex29 := position, tokenIndex
 			{
@@ -815,8 +819,12 @@ func (p *Parser) Init() {
 				if !_rules[ruleaddTextC]() {
 					goto l29
 				}
-				if !_rules[rulenewLine]() {
-					goto l29
+				{
+					position29n, tokenIndex29n := position, tokenIndex
+					if !_rules[rulenewLine]() {
+						goto l29
+					}
+					position, tokenIndex = position29n, tokenIndex29n
 				}
 				if !_rules[ruletext]() {
 					goto l29
-- 
2.43.0


From 011b3a29dab0c924024db6fef650545a1dbcb0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:26 +0000
Subject: [PATCH 39/52] fix: ed's w writes through symbolic links

---
 pkg/ed/ed.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 25508c3..6ebe9b4 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"io/ioutil"
 	"os"
+	"path/filepath"
 	"regexp"
 	"strconv"
 	"strings"
@@ -73,6 +74,10 @@ func (ed *Itor) writeLines(cmd Command) error {
 
 // writeFile replaces the file's contents, or leaves it as it was
 func writeFile(filename string, data string) error {
+	// Write the file behind a symbolic link, don't replace the link
+	if target, err := filepath.EvalSymlinks(filename); err == nil {
+		filename = target
+	}
 	mode := os.FileMode(0666)
 	stat, err := os.Stat(filename)
 	if err == nil {
-- 
2.43.0


From f999b8bf946f107eb9ca9de0dfa5f78749c8a26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:10 +0000
Subject: [PATCH 40/52] fix: cksum reports that its output cannot be written

---
 cmd/cksum/main.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cmd/cksum/main.go b/cmd/cksum/main.go
index 1ff76ae..9fec010 100644
--- a/cmd/cksum/main.go
+++ b/cmd/cksum/main.go
@@ -22,11 +22,14 @@ func run(filename string, printName bool) error {
 		return fmt.Errorf("couldn't read input %s", err)
 	}
 
-	if !printName {
-		fmt.Printf("%d %d\n", memcrc(bytes), len(bytes))
-		return nil
+	if printName {
+		_, err = fmt.Printf("%d %d %s\n", memcrc(bytes), len(bytes), filename)
+	} else {
+		_, err = fmt.Printf("%d %d\n", memcrc(bytes), len(bytes))
+	}
+	if err != nil {
+		return fmt.Errorf("couldn't write output %s", err)
 	}
-	fmt.Printf("%d %d %s\n", memcrc(bytes), len(bytes), filename)
 	return nil
 }
 
-- 
2.43.0


From 549d45efa6429d5963a1d46b2f8f75d08060ce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:10 +0000
Subject: [PATCH 41/52] fix: cmp reports that its output cannot be written

---
 cmd/cmp/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/cmp/main.go b/cmd/cmp/main.go
index e372b62..e80c1be 100644
--- a/cmd/cmp/main.go
+++ b/cmd/cmp/main.go
@@ -68,9 +68,12 @@ func cmp(s settings) error {
 				differ = true
 				if !s.silent {
 					if s.writeAll {
-						fmt.Printf("%d %o %o\n", i, b1, b2)
+						_, err = fmt.Printf("%d %o %o\n", i, b1, b2)
 					} else {
-						fmt.Printf("%s %s differ: char %d, line %d\n", s.file1, s.file2, i, l)
+						_, err = fmt.Printf("%s %s differ: char %d, line %d\n", s.file1, s.file2, i, l)
+					}
+					if err != nil {
+						return err
 					}
 				}
 				if !s.writeAll {
-- 
2.43.0


From 938198bc222441dc426e1534ae41925ccfce6141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:10 +0000
Subject: [PATCH 42/52] fix: diff reports that its output cannot be written

---
 cmd/diff/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/diff/main.go b/cmd/diff/main.go
index 6a0ddb6..ba6e20d 100644
--- a/cmd/diff/main.go
+++ b/cmd/diff/main.go
@@ -132,7 +132,9 @@ func main() {
 
 	// Exit 0 means "no differences", 1 means "some"
 	if out := diff.Format(changes); out != "" {
-		fmt.Println(out)
+		if _, err := fmt.Println(out); err != nil {
+			die(err)
+		}
 		os.Exit(1)
 	}
 }
-- 
2.43.0


From 1ed1f81e7bed5d44af81c2b50ec2eb04b93fa443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:10 +0000
Subject: [PATCH 43/52] fix: tsort reports that its output cannot be written

---
 cmd/tsort/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/tsort/main.go b/cmd/tsort/main.go
index c4bdb21..8e85097 100644
--- a/cmd/tsort/main.go
+++ b/cmd/tsort/main.go
@@ -43,7 +43,9 @@ func run(input io.Reader, output io.Writer) {
 		die("sort error! %s", err)
 	}
 	for _, item := range out {
-		fmt.Fprintln(output, item)
+		if _, err := fmt.Fprintln(output, item); err != nil {
+			die("write error! %s", err)
+		}
 	}
 
 	if closer, ok := output.(io.Closer); ok {
-- 
2.43.0


From 7b754f7ddc44a5385b49c3f66bb15b0d1baace07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:10 +0000
Subject: [PATCH 44/52] fix: locale reports that its output cannot be written

---
 cmd/locale/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/locale/main.go b/cmd/locale/main.go
index 95c63dd..3b5b112 100644
--- a/cmd/locale/main.go
+++ b/cmd/locale/main.go
@@ -1,8 +1,12 @@
 package main
 
 import "fmt"
+import "os"
 import "github.com/fwip/posix-utils/pkg/locale"
 
 func main() {
-	fmt.Print(locale.FromEnv().String())
+	if _, err := fmt.Print(locale.FromEnv().String()); err != nil {
+		fmt.Fprintf(os.Stderr, "locale: %s\n", err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From dcd71d299eaba2d0ee29a0b66a9cf8028d5db0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:10 +0000
Subject: [PATCH 45/52] fix: head reports that its output cannot be written

---
 cmd/head/main.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cmd/head/main.go b/cmd/head/main.go
index c1abca1..e65f5fe 100644
--- a/cmd/head/main.go
+++ b/cmd/head/main.go
@@ -48,10 +48,14 @@ func process(s settings) bool {
 
 	for i, filename := range s.filenames {
 		if len(s.filenames) > 1 {
+			separator := ""
 			if i > 0 {
-				fmt.Print("\n")
+				separator = "\n"
+			}
+			if _, err := fmt.Printf("%s==> %s <==\n", separator, filename); err != nil {
+				fmt.Fprintf(os.Stderr, "head: %s\n", err)
+				return false
 			}
-			fmt.Printf("==> %s <==\n", filename)
 		}
 		var f io.ReadCloser
 		var err error
@@ -71,7 +75,10 @@ func process(s settings) bool {
 		for j := 0; j < s.numLines && err == nil; j++ {
 			var line []byte
 			line, err = reader.ReadBytes('\n')
-			os.Stdout.Write(line)
+			if _, err := os.Stdout.Write(line); err != nil {
+				fmt.Fprintf(os.Stderr, "head: %s\n", err)
+				return false
+			}
 		}
 		if err != nil && err != io.EOF {
 			fmt.Fprintf(os.Stderr, "head: %s: %s\n", filename, err)
-- 
2.43.0


From f223227ffcbb4cb41dbbd9af888ed0bf47193b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:31 +0000
Subject: [PATCH 46/52] fix: head refuses a negative number of lines

---
 cmd/head/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/head/main.go b/cmd/head/main.go
index e65f5fe..4b104af 100644
--- a/cmd/head/main.go
+++ b/cmd/head/main.go
@@ -29,6 +29,9 @@ func parseSettings(args []string) (settings, error) {
 			if err != nil {
 				return s, err
 			}
+			if n < 0 {
+				return s, fmt.Errorf("%d is not a number of lines", n)
+			}
 			s.numLines = n
 		} else {
 			s.filenames = append(s.filenames, args[i])
-- 
2.43.0


From 2d892a9f5f1125577df2288a74c7a8572da90290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:31 +0000
Subject: [PATCH 47/52] fix: tsort refuses a second operand instead of ignoring
 it

---
 cmd/tsort/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/tsort/main.go b/cmd/tsort/main.go
index 8e85097..11e1c1c 100644
--- a/cmd/tsort/main.go
+++ b/cmd/tsort/main.go
@@ -56,6 +56,9 @@ func run(input io.Reader, output io.Writer) {
 
 func main() {
 	var input io.Reader = os.Stdin
+	if len(os.Args) > 2 {
+		die("only one file can be sorted, %s is the second", os.Args[2])
+	}
 	if len(os.Args) > 1 {
 		fname := os.Args[1]
 		if fname != "-" {
-- 
2.43.0


From 771888bfa7b6d4b20d06bbd5543a660a2ee74d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:31 +0000
Subject: [PATCH 48/52] fix: locale refuses options and operands instead of
 ignoring them

---
 cmd/locale/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/locale/main.go b/cmd/locale/main.go
index 3b5b112..64ec655 100644
--- a/cmd/locale/main.go
+++ b/cmd/locale/main.go
@@ -5,6 +5,10 @@ import "os"
 import "github.com/fwip/posix-utils/pkg/locale"
 
 func main() {
+	if len(os.Args) > 1 {
+		fmt.Fprintf(os.Stderr, "locale: can't handle %s, only the environment can be shown\n", os.Args[1])
+		os.Exit(1)
+	}
 	if _, err := fmt.Print(locale.FromEnv().String()); err != nil {
 		fmt.Fprintf(os.Stderr, "locale: %s\n", err)
 		os.Exit(1)
-- 
2.43.0


From 581faa10c784b3da46b92eef70d6207943664cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:27 +0000
Subject: [PATCH 49/52] fix: ed opens the file its operand names, instead of
 running a newline in it as a command

---
 cmd/ed/main.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmd/ed/main.go b/cmd/ed/main.go
index 3bbe05c..2d75eb4 100644
--- a/cmd/ed/main.go
+++ b/cmd/ed/main.go
@@ -3,7 +3,6 @@ package main
 import (
 	"io"
 	"os"
-	"strings"
 
 	"github.com/fwip/posix-utils/pkg/ed"
 )
@@ -12,8 +11,11 @@ func process(in io.Reader, out io.Writer, edit *string) {
 	e := &ed.Itor{}
 	if edit != nil {
 		// If an argument is supplid on the command-line, open it in the editor
-		editCmd := strings.NewReader("e " + *edit + "\n")
-		in = io.MultiReader(editCmd, in)
+		result := ""
+		if err := e.Edit(*edit, false); err != nil {
+			result = "?" + err.Error()
+		}
+		io.WriteString(out, result+"\n")
 	}
 	e.ProcessCommands(in, out)
 	if w, ok := out.(io.WriteCloser); ok {
-- 
2.43.0


From b7efd268e4d36c1ccb447641b962a0b750c8619c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:50 +0000
Subject: [PATCH 50/52] fix: ed keeps bytes that are not UTF-8 in inserted text
 and file names

---
 pkg/ed/ed.go | 40 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 6ebe9b4..ee15d1f 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -11,6 +11,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/fwip/posix-utils/pkg/txt"
 )
@@ -285,7 +286,13 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 		debug("line", cmd)
 		// The parser emits at most one command per line
 		cmds := make(chan Command, linesIn(cmd))
-		p := &Parser{Buffer: cmd + "\n", Out: chan<- Command(cmds)}
+		// The parser works on runes. It would replace bytes that aren't
+		// UTF-8, so it gets one rune for each byte then.
+		source, valid := cmd, utf8.ValidString(cmd)
+		if !valid {
+			source = bytesToRunes(cmd)
+		}
+		p := &Parser{Buffer: source + "\n", Out: chan<- Command(cmds)}
 		p.Init()
 		err := p.Parse()
 		if err != nil {
@@ -303,12 +310,43 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 			if cmd.typ == ctquit || cmd.typ == ctquitForce {
 				return // TODO: checking
 			}
+			if !valid {
+				cmd.decode()
+			}
 			result := ed.processCommand(cmd)
 			w.Write([]byte(result + "\n"))
 		}
 	}
 }
 
+// bytesToRunes returns a string with one rune for each byte of s
+func bytesToRunes(s string) string {
+	runes := make([]rune, len(s))
+	for i := range runes {
+		runes[i] = rune(s[i])
+	}
+	return string(runes)
+}
+
+// runesToBytes is the inverse of bytesToRunes
+func runesToBytes(s string) string {
+	var out []byte
+	for _, r := range s {
+		out = append(out, byte(r))
+	}
+	return string(out)
+}
+
+// decode restores the bytes of a command that was parsed from bytesToRunes
+func (cmd *Command) decode() {
+	cmd.start.text = runesToBytes(cmd.start.text)
+	cmd.end.text = runesToBytes(cmd.end.text)
+	cmd.text = runesToBytes(cmd.text)
+	for i, param := range cmd.params {
+		cmd.params[i] = runesToBytes(param)
+	}
+}
+
 // readLine returns the next line without its newline, and whether there was one
 func readLine(r *bufio.Reader) (line string, ok bool) {
 	line, err := r.ReadString('\n')
-- 
2.43.0


From f1aaf6a9047b54fff53c396ffe90ca671f1b36da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:51 +0000
Subject: [PATCH 51/52] fix: kill refuses signal numbers and process IDs that
 do not fit in 32 bits

They were cut to their last 32 bits by the kernel, so that a signal other
than the one given was sent, or a process other than the one named received it.
---
 cmd/kill/main.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/kill/main.go b/cmd/kill/main.go
index 3686b2b..1a7b822 100644
--- a/cmd/kill/main.go
+++ b/cmd/kill/main.go
@@ -58,16 +58,17 @@ func main() {
 			}
 		default:
 			if strings.HasPrefix(a, "-") {
-				signal, err = strconv.Atoi(a[1:])
+				n, err := strconv.ParseInt(a[1:], 10, 32)
 				if err != nil {
 					errorMsg("%s isn't a number, bro...", a)
 				}
+				signal = int(n)
 			} else {
-				pid, err := strconv.Atoi(a)
+				pid, err := strconv.ParseInt(a, 10, 32)
 				if err != nil {
 					errorMsg("expected a PID here..., got %s", a)
 				}
-				pids = append(pids, pid)
+				pids = append(pids, int(pid))
 			}
 		}
 	}
-- 
2.43.0


From 0877ddd382ad3893c2b25b4061eb76ac94f4a244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:01 +0000
Subject: [PATCH 52/52] fix: locale: refuse a numeric escape in a string whose
 digits are missing

---
 pkg/locale/localelex.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index d08cf25..8c03329 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -285,6 +285,19 @@ func grabInt(l *lexer.L) bool {
 	return true
 }
 
+// takeDigits slurps up n characters of an escape, which have to be among valid
+func takeDigits(l *lexer.L, valid string, n int) bool {
+	for ; n > 0; n-- {
+		r := l.Next()
+		if !strings.ContainsRune(valid, r) {
+			l.Rewind()
+			l.Error(fmt.Sprintf("%q not valid in a numeric escape", r))
+			return false
+		}
+	}
+	return true
+}
+
 // Handle escaped characters in strings differently
 func grabEscapeInString(l *lexer.L) (ok bool) {
 	r := l.Next()
@@ -293,13 +306,15 @@ func grabEscapeInString(l *lexer.L) (ok bool) {
 		l.Emit(CHAR)
 	case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
 		// octal - slurp up two more characters
-		l.Next()
-		l.Next()
+		if !takeDigits(l, digits, 2) {
+			return false
+		}
 		l.Emit(OCTAL_CHAR)
 	case 'd':
 		// decimal - slurp up 2 or 3 characters
-		l.Next()
-		l.Next()
+		if !takeDigits(l, digits, 2) {
+			return false
+		}
 		if !strings.ContainsRune(digits, l.Next()) {
 			l.Rewind()
 		}
@@ -307,8 +322,9 @@ func grabEscapeInString(l *lexer.L) (ok bool) {
 
 	case 'x':
 		// hex - slurp up 2 characters
-		l.Next()
-		l.Next()
+		if !takeDigits(l, digits+"abcdefABCDEF", 2) {
+			return false
+		}
 		l.Emit(HEX_CHAR)
 	default:
 		l.Error(fmt.Sprintf("%q not valid after escape char %q", r, escapeChar))
-- 
2.43.0

