From 961572a4caa34c90a9d56c48a1917d87aeb467e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 01/29] fix: Format no longer writes into the caller's argument
 slice

---
 f/format.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/f/format.go b/f/format.go
index 6394180..4c40ff2 100644
--- a/f/format.go
+++ b/f/format.go
@@ -17,7 +17,8 @@ func Format(format string, args ...any) string {
 	// 原理：使用索引指定参数位置，在 args 后拼接一个空白字符串，
 	// 然后在格式化字符串上使用 %[n]s 输出拼接的空白字符串，这样就没有多余的参数了
 	// see fmt 包注释，或中文文档 https://studygolang.com/static/pkgdoc/pkg/fmt.htm
-	args = append(args, "")
+	// 限制容量，避免 append 写入调用方切片的底层数组
+	args = append(args[:length:length], "")
 	format = fmt.Sprintf("%s%%[%d]s", format, length+1)
 	return fmt.Sprintf(format, args...)
 }
-- 
2.43.0


From 5baf2647dee2199d9b6bfa2ac0fad57620dc3ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 02/29] fix: MostMatchLocale of a Translations uses its own
 locale and locales

---
 translations.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/translations.go b/translations.go
index 3ab42b2..967a3b1 100644
--- a/translations.go
+++ b/translations.go
@@ -134,8 +134,8 @@ func (ts *Translations) Locales() (locales []string) {
 
 // MostMatchLocale return the most match language 返回最匹配的语言
 func (ts *Translations) MostMatchLocale() string {
-	var supported = Locales()
-	_, index, _ := Match(supported, []string{Locale()})
+	var supported = ts.Locales()
+	_, index, _ := Match(supported, []string{ts.Locale()})
 	return supported[index]
 }
 
-- 
2.43.0


From 50f960699a2313c28a2de87c892dec9aa8c213ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 03/29] fix: reading a File no longer writes its header and
 plural caches

GetHeader, Lang and XN64 filled the caches on first use, a data race when
a catalog without (or not yet with) a header is read concurrently.
---
 translator/file.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/translator/file.go b/translator/file.go
index 81617c4..83a8eed 100644
--- a/translator/file.go
+++ b/translator/file.go
@@ -92,14 +92,19 @@ func (file *File) AddEntry(e *Entry) {
 
 // GetHeader get header value by key
 func (file *File) GetHeader(key string) (value string, ok bool) {
-	file.initHeader()
-	value, ok = file.headers[key]
+	value, ok = file.loadHeader()[key]
 	return
 }
 
 func (file *File) initHeader() {
-	if file.headers == nil {
-		headers := make(map[string]string)
+	file.headers = file.loadHeader()
+}
+
+// loadHeader 读操作可能并发执行，因此这里只解析，不缓存
+func (file *File) loadHeader() map[string]string {
+	headers := file.headers
+	if headers == nil {
+		headers = make(map[string]string)
 		if headerEntry, ok := file.entries[key("", "")]; ok {
 			kvs := strings.Split(headerEntry.MsgStr, "\n")
 			for _, kv := range kvs {
@@ -118,12 +123,15 @@ func (file *File) initHeader() {
 				}
 			}
 		}
-		file.headers = headers
 	}
+	return headers
 }
 
 func (file *File) getPlural() *plural {
-	file.initPlural()
+	if file.plural == nil { // 还没有添加过 header 条目
+		forms, _ := file.GetHeader(HeaderPluralForms)
+		return parsePlural(forms)
+	}
 	return file.plural
 }
 
-- 
2.43.0


From 9c18f63b8c9526f4a06b11f0e23d4e4ead8c2eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 04/29] fix: a plural form index equal to the number of stored
 forms no longer panics

---
 translator/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translator/file.go b/translator/file.go
index 83a8eed..896b219 100644
--- a/translator/file.go
+++ b/translator/file.go
@@ -58,7 +58,7 @@ func (file *File) XN64(msgCtxt, msgID, msgIDPlural string, n int64, args ...any)
 		return f.DefaultPlural(msgID, msgIDPlural, n, args...)
 	}
 	index := plural.fn(n)
-	if index < 0 || index >= int(plural.totalForms) || index > len(entry.MsgStrN) || entry.MsgStrN[index] == "" {
+	if index < 0 || index >= int(plural.totalForms) || index >= len(entry.MsgStrN) || entry.MsgStrN[index] == "" {
 		// 超出范围
 		return f.DefaultPlural(msgID, msgIDPlural, n, args...)
 	}
-- 
2.43.0


From 38eddb651547c04d884e589e8ffb11d7006108a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 05/29] fix: plural expressions treat every non-zero value as
 true

!, &&, || and ?: accepted only 1 as true, unlike C.
---
 plurals/exp.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/plurals/exp.go b/plurals/exp.go
index 80a1bd7..378d68f 100644
--- a/plurals/exp.go
+++ b/plurals/exp.go
@@ -112,7 +112,7 @@ func (s *myListener) handleExpPrefix(prefix antlr.Token) {
 		s.stack.Push(^num) // go 使用 ^ 表示按位取反
 	case "!":
 		num, _ := s.stack.Pop()
-		if num == _TRUE {
+		if num != _FALSE {
 			s.stack.Push(_FALSE)
 		} else {
 			s.stack.Push(_TRUE)
@@ -254,7 +254,7 @@ func (s *myListener) handleExpBop(bop antlr.Token) {
 			right, _ = s.stack.Pop()
 			left, _  = s.stack.Pop()
 		)
-		if left == _TRUE && right == _TRUE {
+		if left != _FALSE && right != _FALSE {
 			s.stack.Push(_TRUE)
 		} else {
 			s.stack.Push(_FALSE)
@@ -264,7 +264,7 @@ func (s *myListener) handleExpBop(bop antlr.Token) {
 			right, _ = s.stack.Pop()
 			left, _  = s.stack.Pop()
 		)
-		if left == _TRUE || right == _TRUE {
+		if left != _FALSE || right != _FALSE {
 			s.stack.Push(_TRUE)
 		} else {
 			s.stack.Push(_FALSE)
@@ -276,7 +276,7 @@ func (s *myListener) handleExpBop(bop antlr.Token) {
 			left, _  = s.stack.Pop()
 			cond, _  = s.stack.Pop()
 		)
-		if cond == _TRUE {
+		if cond != _FALSE {
 			s.stack.Push(left)
 		} else {
 			s.stack.Push(right)
-- 
2.43.0


From cc8ec68549e575aa0e46c2cd26bb2dcc92c35d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 06/29] fix: a catalog without a Language header does not count
 as loaded

BindFS replaced the catalogs of a domain with an empty set when the only
files it read named no language.
---
 translaton.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/translaton.go b/translaton.go
index c0a3b3e..37d57d1 100644
--- a/translaton.go
+++ b/translaton.go
@@ -1,6 +1,7 @@
 package t
 
 import (
+	"errors"
 	"io"
 	"io/fs"
 	"strings"
@@ -14,6 +15,9 @@ const (
 	extMo = ".mo"
 )
 
+// errNoLanguage means a catalog does not name its language in its header
+var errNoLanguage = errors.New("no Language header")
+
 // trNoop is a no-op Translation
 var trNoop = NewTranslation("")
 
@@ -115,6 +119,9 @@ func (tr *Translation) LoadPo(content []byte) error {
 	if err != nil {
 		return err
 	}
+	if poFile.Lang() == "" { // AddOrReplace 会忽略没有语言的翻译
+		return errNoLanguage
+	}
 	tr.AddOrReplace(poFile)
 	return nil
 }
@@ -125,6 +132,9 @@ func (tr *Translation) LoadMo(content []byte) error {
 	if err != nil {
 		return err
 	}
+	if moFile.Lang() == "" {
+		return errNoLanguage
+	}
 	tr.AddOrReplace(moFile)
 	return nil
 }
-- 
2.43.0


From b3a7dcfdfcd9078ff30303421a5ec18e9b4b9cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 07/29] fix: an unreadable sub-directory no longer stops the
 load of the other catalogs

---
 translaton.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/translaton.go b/translaton.go
index 37d57d1..c9eb9fd 100644
--- a/translaton.go
+++ b/translaton.go
@@ -72,8 +72,8 @@ func (tr *Translation) LoadFS(f fs.FS) bool {
 	var loaded = false
 	fn := func(ext string) func(path string, d fs.DirEntry, err error) error {
 		return func(path string, d fs.DirEntry, err error) error {
-			if err != nil {
-				return err
+			if err != nil { // 跳过不可读的目录，继续加载其他文件
+				return nil
 			}
 			if d != nil && !d.IsDir() {
 				if strings.HasSuffix(d.Name(), ext) { // 这里应该使用 d.Name;
-- 
2.43.0


From 6fb160d483499782b8274043dc5e4ca6e2727ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 08/29] fix: reading a binary catalog checks string lengths
 before it allocates

---
 translator/mo.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/translator/mo.go b/translator/mo.go
index 77cba35..049968b 100644
--- a/translator/mo.go
+++ b/translator/mo.go
@@ -88,6 +88,11 @@ type lenOff struct {
 	OffSet uint32 // 偏移位置
 }
 
+// in 是否在文件内容的范围内
+func (lo lenOff) in(content []byte) bool {
+	return uint64(lo.OffSet)+uint64(lo.Length) <= uint64(len(content))
+}
+
 // ReadMo read mo from []byte content
 func ReadMo(content []byte) (*File, error) {
 	file := new(File)
@@ -157,6 +162,9 @@ func ReadMo(content []byte) (*File, error) {
 			return nil, errors.WithSecondaryError(errReadMo,
 				errors.Wrapf(err, "failed to seek to msg_id[%d]: %d", i, msgIDMeta[i].OffSet))
 		}
+		if !msgIDMeta[i].in(content) { // 长度来自文件，分配内存前先检查
+			return nil, errors.WithSecondaryError(errReadMo, errors.Errorf("msg_id[%d] is out of range", i))
+		}
 		id := make([]byte, msgIDMeta[i].Length) // msg_id 的长度
 		if err := binary.Read(r, bo, &id); err != nil {
 			return nil, errors.WithSecondaryError(errReadMo,
@@ -168,6 +176,9 @@ func ReadMo(content []byte) (*File, error) {
 			return nil, errors.WithSecondaryError(errReadMo,
 				errors.Wrapf(err, "failed to seek to msg_str[%d]: %d", i, msgStrMeta[i].OffSet))
 		}
+		if !msgStrMeta[i].in(content) {
+			return nil, errors.WithSecondaryError(errReadMo, errors.Errorf("msg_str[%d] is out of range", i))
+		}
 		str := make([]byte, msgStrMeta[i].Length) // msg_str 的长度
 		if err := binary.Read(r, bo, &str); err != nil {
 			return nil, errors.WithSecondaryError(errReadMo,
-- 
2.43.0


From bafa56e0e2661fa70389e10140ed9b5c8361547d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 09/29] fix: reading a template no longer panics on malformed
 lines or adds an empty header at its end

---
 translator/po.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/translator/po.go b/translator/po.go
index d4d1368..4bd0161 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -33,7 +33,8 @@ func readPo(content []byte, pot bool) (*File, error) {
 	file := new(File)
 	for {
 		entry, err := readEntry(r)
-		if pot || entry.isValid() {
+		// 模板的条目还没有翻译，但必须有内容：出错或文件末尾时可能没有读到条目
+		if entry.isValid() || pot && entry != nil && entry.Key() != key("", "") {
 			file.AddEntry(entry)
 		}
 		if errors.Is(err, io.EOF) {
-- 
2.43.0


From 4360bf9ef4b3cd274b7f8e37f638e56e599e9f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:58 +0000
Subject: [PATCH 10/29] fix: the order of messages in a binary catalog no
 longer depends on comments it does not hold

---
 translator/mo.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/translator/mo.go b/translator/mo.go
index 049968b..b86e42c 100644
--- a/translator/mo.go
+++ b/translator/mo.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"sort"
 	"strings"
 
 	"github.com/youthlin/t/errors"
@@ -229,6 +230,8 @@ func (f *File) SaveAsMo(w io.Writer) error {
 
 	// map 多次迭代顺序不定，先转为数组
 	var entries = f.SortedEntry()
+	// mo 文件按原文排序，不依赖注释（注释不会写入 mo 文件）
+	sort.SliceStable(entries, func(i, j int) bool { return moMsgID(entries[i]) < moMsgID(entries[j]) })
 
 	// pos=O. from here is O.
 	offsetID := offsetO + count*8*2 // 8=length(uint32)+offset(uint32) 2=id table + str table
-- 
2.43.0


From e80f1baa973a5ed06504ef6f1038a39a3b8915c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:38 +0000
Subject: [PATCH 11/29] fix: entries whose sort keys coincide are saved in a
 fixed order

---
 translator/file.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/translator/file.go b/translator/file.go
index 896b219..7596b32 100644
--- a/translator/file.go
+++ b/translator/file.go
@@ -73,7 +73,10 @@ func (file *File) SortedEntry() (entries []*Entry) {
 	sort.Slice(entries, func(i, j int) bool {
 		left := entries[i]
 		right := entries[j]
-		return left.getSortKey() < right.getSortKey()
+		if l, r := left.getSortKey(), right.getSortKey(); l != r {
+			return l < r
+		}
+		return left.Key() < right.Key()
 	})
 	return
 }
-- 
2.43.0


From 376eac8b479e0a4643e97d4c86342d5209f1292d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:38 +0000
Subject: [PATCH 12/29] fix: adding a header entry replaces the language and
 plural rule of the catalog

---
 translator/file.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/translator/file.go b/translator/file.go
index 7596b32..c348a33 100644
--- a/translator/file.go
+++ b/translator/file.go
@@ -88,6 +88,7 @@ func (file *File) AddEntry(e *Entry) {
 	}
 	file.entries[e.Key()] = e
 	if e.isHeader() {
+		file.headers, file.plural = nil, nil // 替换 header 条目后需要重新解析
 		file.initHeader()
 		file.initPlural()
 	}
-- 
2.43.0


From 5ffa362e3ba65d184346bf376be5ecace648c439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:55 +0000
Subject: [PATCH 13/29] fix: an empty message in a template no longer replaces
 the header of the output

---
 cmd/xtemplate/internal/run.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index 6bc846b..1ed407a 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -333,6 +333,11 @@ func extract(ctx *Context, line, name string, kw Keyword, m map[int]string) (*tr
 		return nil, false
 
 	}
+	if txt == "" && entry.MsgCtxt == "" {
+		// 空的 msgid 是 header 条目专用的，不能被覆盖
+		ctx.debugPrint("  >  >  >  ID=%v empty msg id", name)
+		return nil, false
+	}
 	entry.MsgID = txt
 
 	if kw.MsgID2 > 0 {
-- 
2.43.0


From 71cc19bc4409930a40fb306cc0fea133ae372a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:55 +0000
Subject: [PATCH 14/29] fix: keyword arguments need not be adjacent or start at
 the first position

---
 cmd/xtemplate/internal/run.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index 1ed407a..242a2a3 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -250,14 +250,8 @@ func filter(ctx *Context, line, name string, nameIndex int, args []parse.Node) {
 	argLength := len(args)
 	for _, kw := range ctx.Keywords {
 		if kw.Name == name {
-			argCount := 1 // MsgID 始终需要
-			if kw.MsgCtxt > 0 && kw.MsgCtxt != kw.MsgID {
-				argCount++
-			}
-			if kw.MsgID2 > 0 && kw.MsgID2 != kw.MsgID && kw.MsgID2 != kw.MsgCtxt {
-				argCount++
-			}
-			lastIndex := argCount + nameIndex
+			// 参数位置不一定从 1 开始，也不一定相邻，例如 T:2 或 N:1,3
+			lastIndex := max(kw.MsgID, kw.MsgCtxt, kw.MsgID2) + nameIndex
 			if lastIndex >= argLength {
 				ctx.debugPrint("  >  >  >  ID=%v too few args", name)
 				continue
@@ -265,6 +259,9 @@ func filter(ctx *Context, line, name string, nameIndex int, args []parse.Node) {
 			argOK := true
 			m := make(map[int]string)
 			for i := nameIndex + 1; i <= lastIndex; i++ {
+				if pos := i - nameIndex; pos != kw.MsgID && pos != kw.MsgCtxt && pos != kw.MsgID2 {
+					continue
+				}
 				arg := args[i]
 				text, ok := stringLiteral(arg)
 				if !ok {
-- 
2.43.0


From a7ce003d50dfcba05cfc5d99067532d444102494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:55 +0000
Subject: [PATCH 15/29] fix: messages in the parenthesised part of a field
 chain are extracted

---
 cmd/xtemplate/internal/run.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index 242a2a3..c2577d8 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -218,6 +218,9 @@ func resolveCmds(filename string, line int, ctx *Context, cmds []*parse.CommandN
 				lastID := arg.Ident[len(arg.Ident)-1]
 				filter(ctx, fmt.Sprintf("%v:%d", filename, line), lastID, i, args)
 			case *parse.ChainNode:
+				if pipe, ok := arg.Node.(*parse.PipeNode); ok {
+					resolvePipe(filename, line, ctx, pipe)
+				}
 				if len(arg.Field) == 0 {
 					continue
 				}
-- 
2.43.0


From 0d31f5e0f8b884f0104f9a6dc6b449fb94f665ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:55 +0000
Subject: [PATCH 16/29] fix: the templates of a file are processed in a fixed
 order

---
 cmd/xtemplate/internal/run.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index c2577d8..097f06d 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"path/filepath"
 	"regexp"
+	"sort"
 	"text/template/parse"
 
 	"github.com/cockroachdb/errors"
@@ -110,7 +111,10 @@ func resolveOneFile(filename string, ctx *Context) error {
 		return errors.Wrapf(err, t.T("failed to parse file %v"), filename)
 	}
 	// 一个文件可能有多个模板
-	for _, tmpl := range tmpl.Templates() {
+	// Templates 的顺序是随机的，排序后结果才稳定
+	templates := tmpl.Templates()
+	sort.Slice(templates, func(i, j int) bool { return templates[i].Name() < templates[j].Name() })
+	for _, tmpl := range templates {
 		resolveTmpl(filename, ctx, tmpl)
 	}
 	return nil
-- 
2.43.0


From 3b8f270bdaae4f0534f93d96e7307c65f14421d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:55 +0000
Subject: [PATCH 17/29] fix: the output is opened only after everything was
 extracted

---
 cmd/xtemplate/internal/param.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cmd/xtemplate/internal/param.go b/cmd/xtemplate/internal/param.go
index 1a2a7f3..822e7b0 100644
--- a/cmd/xtemplate/internal/param.go
+++ b/cmd/xtemplate/internal/param.go
@@ -41,7 +41,7 @@ type Context struct {
 	entries   map[string]*translator.Entry
 }
 
-// newCtx 根据命令行参数构造运行上下文，并完成 keyword/function/output 的初始化。
+// newCtx 根据命令行参数构造运行上下文，并完成 keyword/function 的初始化。
 func newCtx(param *Param) (*Context, error) {
 	ctx := &Context{
 		Param:     param,
@@ -56,12 +56,6 @@ func newCtx(param *Param) (*Context, error) {
 	for _, k := range kw {
 		ctx.Functions[k.Name] = noopFun
 	}
-	wr, err := Writer(param.OutputFile)
-	if err != nil {
-		return nil, err
-	}
-	ctx.Output = wr
-
 	if ctx.Function != "" {
 		fun := strings.Split(ctx.Function, ",")
 		for _, name := range fun {
@@ -96,8 +90,14 @@ func (ctx *Context) Add(entry *translator.Entry) error {
 }
 
 // Write 将当前收集到的条目写入 POT。
+// 提取全部成功后才打开输出文件，失败时不会清空已有的输出。
 func (ctx *Context) Write() error {
 	pot := ctx.pot()
+	wr, err := Writer(ctx.OutputFile)
+	if err != nil {
+		return err
+	}
+	ctx.Output = wr
 	return pot.SaveAsPot(ctx.Output)
 }
 
-- 
2.43.0


From 32819062ba4da282e9344d77cf02a8cc0630d999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:05 +0000
Subject: [PATCH 18/29] fix: a directory that cannot be listed makes the
 extraction fail

---
 cmd/xtemplate/internal/run.go | 70 ++++++++++++++++++++++++++++++++++-
 1 file changed, 69 insertions(+), 1 deletion(-)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index 097f06d..7c857c8 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -3,10 +3,14 @@ package internal
 import (
 	"fmt"
 	"html/template"
+	"io/fs"
 	"os"
 	"path/filepath"
 	"regexp"
+	"runtime"
 	"sort"
+	"strings"
+	"syscall"
 	"text/template/parse"
 
 	"github.com/cockroachdb/errors"
@@ -50,7 +54,7 @@ func Run(param *Param) (err error) {
 			err = closeErr
 		}
 	}()
-	filenames, err := filepath.Glob(param.Input)
+	filenames, err := glob(param.Input)
 	param.debugPrint("Glob files=%v err=%+v", filenames, err)
 	if err != nil {
 		return errors.Wrapf(err, t.T("invalid input pattern"))
@@ -78,6 +82,70 @@ func Run(param *Param) (err error) {
 	return ctx.Write()
 }
 
+// glob 与 filepath.Glob 相同，只是不忽略读取目录时的错误：
+// 否则目录读取失败时会漏掉文件，却仍然以成功状态退出。
+func glob(pattern string) ([]string, error) {
+	if _, err := filepath.Match(pattern, ""); err != nil {
+		return nil, err
+	}
+	if !hasMeta(pattern) {
+		if _, err := os.Lstat(pattern); err != nil {
+			return nil, ignoreNotExist(err)
+		}
+		return []string{pattern}, nil
+	}
+	dir, file := filepath.Split(pattern)
+	volLen := len(filepath.VolumeName(dir))
+	if dir == "" {
+		dir = "."
+	} else if len(dir) > volLen+1 {
+		dir = dir[:len(dir)-1] // 去掉末尾的分隔符
+	}
+	dirs := []string{dir}
+	if hasMeta(dir[volLen:]) {
+		var err error
+		if dirs, err = glob(dir); err != nil {
+			return nil, err
+		}
+	}
+	var matches []string
+	for _, dir := range dirs {
+		info, err := os.Stat(dir)
+		if err == nil && !info.IsDir() {
+			continue
+		}
+		var entries []os.DirEntry
+		if err == nil {
+			entries, err = os.ReadDir(dir)
+		}
+		if err = ignoreNotExist(err); err != nil {
+			return nil, err
+		}
+		for _, entry := range entries {
+			if ok, _ := filepath.Match(file, entry.Name()); ok {
+				matches = append(matches, filepath.Join(dir, entry.Name()))
+			}
+		}
+	}
+	return matches, nil
+}
+
+// hasMeta 判断是否包含通配符，反斜杠在 Windows 上是路径分隔符
+func hasMeta(path string) bool {
+	meta := `*?[\`
+	if runtime.GOOS == "windows" {
+		meta = `*?[`
+	}
+	return strings.ContainsAny(path, meta)
+}
+
+func ignoreNotExist(err error) error {
+	if errors.Is(err, fs.ErrNotExist) || errors.Is(err, syscall.ENOTDIR) {
+		return nil
+	}
+	return err
+}
+
 // printErr print message to stderr
 func printErr(format string, args ...any) {
 	fmt.Fprintf(os.Stderr, format+"\n", args...)
-- 
2.43.0


From 0a5790d819588b32287c0188e34fc63b2e24c852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:37 +0000
Subject: [PATCH 19/29] fix: xtemplate refuses keyword positions below 1

Positions count from 1. T:0, N:1,0 or X:-1c,2 were taken and then
silently extracted nothing or ignored that part of the keyword.
---
 cmd/xtemplate/internal/keyword.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/cmd/xtemplate/internal/keyword.go b/cmd/xtemplate/internal/keyword.go
index b68aff2..59f82d6 100644
--- a/cmd/xtemplate/internal/keyword.go
+++ b/cmd/xtemplate/internal/keyword.go
@@ -53,7 +53,7 @@ func ParseKeywords(str string) (result []Keyword, err error) {
 		}
 		switch len(index) {
 		case 1:
-			i, err := strconv.ParseInt(index[0], 10, 64)
+			i, err := parseIndex(index[0])
 			if err != nil {
 				return nil, errors.Wrapf(err, msg+t.T("msg id index is not a number"))
 			}
@@ -64,25 +64,25 @@ func ParseKeywords(str string) (result []Keyword, err error) {
 			i1c := strings.HasSuffix(i1, "c")
 			if i1c {
 				c := i1[:len(i1)-1]
-				cIndex, err := strconv.ParseInt(c, 10, 64)
+				cIndex, err := parseIndex(c)
 				if err != nil {
 					return nil, errors.Wrapf(err, msg+t.T("context index is not a number: %v", c))
 				}
 				k.MsgCtxt = int(cIndex)
 
-				index, err := strconv.ParseInt(i2, 10, 64)
+				index, err := parseIndex(i2)
 				if err != nil {
 					return nil, errors.Wrapf(err, msg+t.T("msg id index is not a number: %v", i2))
 				}
 				k.MsgID = int(index)
 			} else {
-				index, err := strconv.ParseInt(i1, 10, 64)
+				index, err := parseIndex(i1)
 				if err != nil {
 					return nil, errors.Wrapf(err, msg+t.T("msg id index is not a number: %v", i1))
 				}
 				k.MsgID = int(index)
 
-				index, err = strconv.ParseInt(i2, 10, 64)
+				index, err = parseIndex(i2)
 				if err != nil {
 					return nil, errors.Wrapf(err, msg+t.T("msg plural index is not a number: %v", i2))
 				}
@@ -96,19 +96,19 @@ func ParseKeywords(str string) (result []Keyword, err error) {
 				return nil, errors.Errorf(msg + t.T("context index must end with 'c': %v", i1))
 			}
 			c := i1[:len(i1)-1]
-			index, err := strconv.ParseInt(c, 10, 64)
+			index, err := parseIndex(c)
 			if err != nil {
 				return nil, errors.Wrapf(err, msg+t.T("msg context index is not a number: %v", c))
 			}
 			k.MsgCtxt = int(index)
 
-			index, err = strconv.ParseInt(i2, 10, 64)
+			index, err = parseIndex(i2)
 			if err != nil {
 				return nil, errors.Wrapf(err, msg+t.T("msg id index is not a number: %v", i2))
 			}
 			k.MsgID = int(index)
 
-			index, err = strconv.ParseInt(i3, 10, 64)
+			index, err = parseIndex(i3)
 			if err != nil {
 				return nil, errors.Wrapf(err, msg+t.T("msg id index is not a number: %v", i3))
 			}
@@ -121,6 +121,15 @@ func ParseKeywords(str string) (result []Keyword, err error) {
 	return
 }
 
+// parseIndex 解析参数位置，位置从 1 开始
+func parseIndex(s string) (int64, error) {
+	i, err := strconv.ParseInt(s, 10, 64)
+	if err == nil && i < 1 {
+		err = errors.Errorf("index must be positive: %v", s)
+	}
+	return i, err
+}
+
 // Writer 根据输出参数返回写入目标。
 // fileName 为空或为 - 时输出到 stdout，否则覆盖写入指定文件。
 func Writer(fileName string) (wr *os.File, err error) {
-- 
2.43.0


From 10246569321e7190f8ba81dd37ba5c1453573c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:48 +0000
Subject: [PATCH 20/29] fix: text catalogs use only the escapes that gettext
 knows

%q turns a no-break space into \u00a0, which msgfmt and msgmerge refuse,
and a control character into \x1b, which they read together with any
hexadecimal digits that follow.
---
 translator/pot.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/translator/pot.go b/translator/pot.go
index 3490dea..ff98bc8 100644
--- a/translator/pot.go
+++ b/translator/pot.go
@@ -4,6 +4,9 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"strconv"
+	"strings"
+	"unicode/utf8"
 )
 
 const (
@@ -17,10 +20,33 @@ const (
 func writeString(buf *bytes.Buffer, key, content string) {
 	buf.WriteString(key + " ")
 	for _, line := range split(content, lineThreshold) {
-		fmt.Fprintf(buf, "%q\n", line)
+		buf.WriteString(quote(line) + "\n")
 	}
 }
 
+// quote 用双引号包裹文本，只使用 gettext 认识的转义序列：
+// %q 会把不可打印的字符转义为 \u00a0 等，gettext 不支持；
+// \x 后的十六进制位数不限，会吞掉后面的字符，所以用固定三位的八进制
+func quote(s string) string {
+	var sb strings.Builder
+	sb.WriteByte('"')
+	for i, size := 0, 0; i < len(s); i += size {
+		var r rune
+		r, size = utf8.DecodeRuneInString(s[i:])
+		switch {
+		case r >= utf8.RuneSelf && !(r == utf8.RuneError && size == 1):
+			sb.WriteString(s[i : i+size])
+		case r >= ' ' && r <= '~', r >= '\a' && r <= '\r': // 可打印字符以及 \a\b\t\n\v\f\r
+			q := strconv.Quote(s[i : i+size])
+			sb.WriteString(q[1 : len(q)-1])
+		default: // 其他控制字符、无效的 UTF-8 字节
+			fmt.Fprintf(&sb, "\\%03o", s[i])
+		}
+	}
+	sb.WriteByte('"')
+	return sb.String()
+}
+
 // SaveAsPot save this File as pot format
 func (f *File) SaveAsPot(w io.Writer) error {
 	var buf = &bytes.Buffer{}
-- 
2.43.0


From 02c1fdf26cf47c1dcca11443777c7563d7024647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:48 +0000
Subject: [PATCH 21/29] fix: a text catalog holds a msgstr for every message

An entry without translation was saved without msgstr, which is no valid
text catalog.
---
 translator/po.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/translator/po.go b/translator/po.go
index 4bd0161..89997f5 100644
--- a/translator/po.go
+++ b/translator/po.go
@@ -61,10 +61,14 @@ func (f *File) SaveAsPo(w io.Writer) error {
 		if entry.IsPlural {
 			writeString(buf, msgidPlural, entry.MsgID2)
 		}
-		if entry.MsgStr != "" {
+		forms := entry.MsgStrN
+		if entry.IsPlural && !entry.isValid() { // 还没有翻译，也要写出空的 msgstr，否则不是合法的 po 文件
+			forms = []string{"", ""}
+		}
+		if entry.MsgStr != "" || len(forms) == 0 {
 			writeString(buf, msgstr, entry.MsgStr)
 		}
-		for i, str := range entry.MsgStrN {
+		for i, str := range forms {
 			writeString(buf, fmt.Sprintf(msgstrN, i), str)
 		}
 		buf.WriteString("\n")
-- 
2.43.0


From 10ec6587bfb1537eb4904f81176fc3a896f333d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:27 +0000
Subject: [PATCH 22/29] fix: binary catalogs whose strings overlap are refused

Tables of a damaged or hostile file can let every string be nearly the whole
file, so that reading it took memory with the square of its size: 65 GB for
1 MB.
---
 translator/mo.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/translator/mo.go b/translator/mo.go
index b86e42c..aee17ff 100644
--- a/translator/mo.go
+++ b/translator/mo.go
@@ -70,6 +70,7 @@ const (
 	flag       = "ThisFileIsGenerateBy:github.com/youthlin/t" + nul
 	flagLen    = len(flag)        // 43
 	offsetO    = 28 + 4 + flagLen // 75: 28=固定header 4=uint32:flagLen 43=string:flag
+	maxOverlap = 64               // 正常文件的字符串互不重叠，相同的字符串最多共用；总长度不超过文件大小的这么多倍
 )
 
 var errReadMo = fmt.Errorf("read mo")
@@ -156,6 +157,15 @@ func ReadMo(content []byte) (*File, error) {
 		msgStrMeta = append(msgStrMeta, lo)
 	}
 
+	// 每个字符串都在文件范围内还不够：损坏的偏移表可以让它们重复引用同一段内容，总长度与文件大小的平方成正比
+	var total uint64
+	for i := range msgIDMeta {
+		total += uint64(msgIDMeta[i].Length) + uint64(msgStrMeta[i].Length)
+	}
+	if total > maxOverlap*uint64(len(content)) {
+		return nil, errors.WithSecondaryError(errReadMo, errors.Errorf("strings overlap: %d bytes in total", total))
+	}
+
 	// 5 开始读取
 	for i := uint32(0); i < n; i++ {
 		// 5.1 跳转到第 i 条 msg_id 偏移处
-- 
2.43.0


From 299c3139abda7106c78ba10091aa83d0ee197bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:54 +0000
Subject: [PATCH 23/29] fix: reading a file that is neither .po nor .mo
 reported success

---
 translaton.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/translaton.go b/translaton.go
index c9eb9fd..fc07d2c 100644
--- a/translaton.go
+++ b/translaton.go
@@ -18,6 +18,9 @@ const (
 // errNoLanguage means a catalog does not name its language in its header
 var errNoLanguage = errors.New("no Language header")
 
+// errUnknownFormat means a file is neither a text catalog nor a binary one
+var errUnknownFormat = errors.New("not a .po or .mo file")
+
 // trNoop is a no-op Translation
 var trNoop = NewTranslation("")
 
@@ -109,6 +112,8 @@ func (tr *Translation) LoadFile(file fs.File) error {
 		err = tr.LoadPo(content)
 	} else if strings.HasSuffix(fileName, extMo) {
 		err = tr.LoadMo(content)
+	} else {
+		err = errUnknownFormat
 	}
 	return err
 }
-- 
2.43.0


From 0932d4af433e769e9ec6211f73850603f886d40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:54 +0000
Subject: [PATCH 24/29] fix: accepted languages on further Accept-Language
 lines of a request were ignored

---
 http.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/http.go b/http.go
index e6a999b..2e7436f 100644
--- a/http.go
+++ b/http.go
@@ -2,6 +2,7 @@ package t
 
 import (
 	"net/http"
+	"strings"
 
 	"golang.org/x/text/language"
 )
@@ -31,8 +32,9 @@ func GetUserLang(request *http.Request, opts ...getUserLangOpt) string {
 	for _, lang := range langs {
 		supported = append(supported, language.Make(lang))
 	}
-	matcher := language.NewMatcher(supported)                     // 匹配器
-	acceptLangs := request.Header.Get(HTTPHeaderAcceptLanguage)   // 用户支持的语言
+	matcher := language.NewMatcher(supported) // 匹配器
+	// 用户支持的语言，可能分成多行，等价于用逗号连接 (RFC 9110 5.3)
+	acceptLangs := strings.Join(request.Header.Values(HTTPHeaderAcceptLanguage), ",")
 	userAccept, _, _ := language.ParseAcceptLanguage(acceptLangs) // 转为 Tag
 	_, index, _ := matcher.Match(userAccept...)                   // 找到最匹配的语言
 	return langs[index]
-- 
2.43.0


From 289acb793ea796e09c42940cfa3577ab1c6f2d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:55 +0000
Subject: [PATCH 25/29] fix: plural rules with ten or more forms were taken as
 malformed

---
 translator/plural.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translator/plural.go b/translator/plural.go
index b7364f5..eb76c52 100644
--- a/translator/plural.go
+++ b/translator/plural.go
@@ -16,7 +16,7 @@ type plural struct {
 }
 
 var (
-	rePlurals       = regexp.MustCompile(`^\s*nplurals\s*=\s*(\d)\s*;\s*plural\s*=\s*(.*)\s*;$`)
+	rePlurals       = regexp.MustCompile(`^\s*nplurals\s*=\s*(\d+)\s*;\s*plural\s*=\s*(.*)\s*;$`)
 	invalidPluralFn = func(i int64) int { return -1 }
 )
 
-- 
2.43.0


From f3f96846d5ef8851fd8cbdc4e8650d8ec9ef2a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:55 +0000
Subject: [PATCH 26/29] fix: templates calling functions with non-ASCII names
 could not be extracted

---
 cmd/xtemplate/internal/run.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/xtemplate/internal/run.go b/cmd/xtemplate/internal/run.go
index 7c857c8..d2a1b78 100644
--- a/cmd/xtemplate/internal/run.go
+++ b/cmd/xtemplate/internal/run.go
@@ -28,7 +28,7 @@ var templateBuiltins = map[string]bool{
 
 // identPattern 匹配模板中所有合法 Go 标识符（字母或下划线开头）。
 // 扫描所有标识符并注册为 noop 函数，比精确匹配函数调用位置更简单可靠。
-var identPattern = regexp.MustCompile(`[a-zA-Z_]\w*`)
+var identPattern = regexp.MustCompile(`[\pL_][\pL\p{Nd}_]*`)
 
 // scanFuncNames 从模板源码中扫描所有标识符，排除内置关键字，作为候选函数名。
 func scanFuncNames(src string) map[string]bool {
-- 
2.43.0


From f9c27c1cb8b87418440fee0c241526c190c1b833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:27 +0000
Subject: [PATCH 27/29] fix: blanks inside the operators and numbers of a
 common plural rule were ignored

---
 plurals/common.go | 24 ++++++++++++++++++++++++
 plurals/exp.go    |  4 +---
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/plurals/common.go b/plurals/common.go
index 3d628fe..ee4df38 100644
--- a/plurals/common.go
+++ b/plurals/common.go
@@ -1,5 +1,7 @@
 package plurals
 
+import "strings"
+
 func i(b bool) int64 {
 	if b {
 		return 1
@@ -13,6 +15,28 @@ func _if(b bool, t, f int64) int64 {
 	return f
 }
 
+// compact removes the blanks of an expression, except where this would join two tokens
+// 去掉空格，但不能把两个记号连成一个: "n ! = 1", "n%1 0" 不是合法的表达式
+func compact(exp string) string {
+	const operators = "=!<>&|"
+	var sb strings.Builder
+	var last byte // 前一部分的最后一个字符
+	for _, part := range strings.Split(exp, " ") {
+		if part == "" {
+			continue
+		}
+		if last != 0 && (isWord(last) && isWord(part[0]) ||
+			strings.IndexByte(operators, last) >= 0 && strings.IndexByte(operators, part[0]) >= 0) {
+			sb.WriteByte(' ')
+		}
+		sb.WriteString(part)
+		last = part[len(part)-1]
+	}
+	return sb.String()
+}
+
+func isWord(c byte) bool { return c == 'n' || '0' <= c && c <= '9' }
+
 // commons holds some commonly used expression from gnu site
 // https://www.gnu.org/software/gettext/manual/html_node/Plural-forms.html#index-plural_002c-in-a-PO-file-header
 var commons = map[string]func(n int64) int64{
diff --git a/plurals/exp.go b/plurals/exp.go
index 378d68f..3cdaa61 100644
--- a/plurals/exp.go
+++ b/plurals/exp.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"fmt"
 	"strconv"
-	"strings"
 
 	"github.com/antlr4-go/antlr/v4"
 	"github.com/youthlin/t/errors"
@@ -20,8 +19,7 @@ func Eval(ctx context.Context, exp string, n int64) (result int64, err error) {
 	}()
 
 	// 1 常见表达式直接走函数
-	commonExp := strings.ReplaceAll(exp, " ", "")
-	fun, ok := commons[commonExp]
+	fun, ok := commons[compact(exp)]
 	if ok {
 		return fun(n), nil
 	}
-- 
2.43.0


From dbf5397033a35d19f30280a02af452aca6ce3d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:27 +0000
Subject: [PATCH 28/29] fix: the stand-in for an unknown domain was shared, so
 that catalogs added to it showed everywhere

---
 translations.go | 2 +-
 translaton.go   | 3 ---
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/translations.go b/translations.go
index 967a3b1..69b4c36 100644
--- a/translations.go
+++ b/translations.go
@@ -184,7 +184,7 @@ func (ts *Translations) GetOrNoop(domain string) *Translation {
 	if tr, ok := ts.domains[domain]; ok {
 		return tr
 	}
-	return trNoop
+	return NewTranslation(domain) // 调用方可能会修改它，不能共用
 }
 
 // D return a new Translations with domain
diff --git a/translaton.go b/translaton.go
index fc07d2c..0092093 100644
--- a/translaton.go
+++ b/translaton.go
@@ -21,9 +21,6 @@ var errNoLanguage = errors.New("no Language header")
 // errUnknownFormat means a file is neither a text catalog nor a binary one
 var errUnknownFormat = errors.New("not a .po or .mo file")
 
-// trNoop is a no-op Translation
-var trNoop = NewTranslation("")
-
 // Translation can provide different language translation of a domain
 // tr. [翻译域]包含各个语言的翻译
 type Translation struct {
-- 
2.43.0


From e6a4d206947d88c340490996108bcad6a5610419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:53 +0000
Subject: [PATCH 29/29] fix: a malformed plural rule with many errors used
 memory growing with the square of its length

---
 plurals/err.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/plurals/err.go b/plurals/err.go
index 57bb7ee..307c502 100644
--- a/plurals/err.go
+++ b/plurals/err.go
@@ -2,6 +2,7 @@ package plurals
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/antlr4-go/antlr/v4"
 	"github.com/youthlin/t/errors"
@@ -33,8 +34,27 @@ func (d *errorListener) ReportContextSensitivity(recognizer antlr.Parser, dfa *a
 }
 
 func (d *errorListener) addError(err error) {
-	if d.err == nil {
-		d.err = ErrAntlr
+	list, ok := d.err.(*errorList)
+	if !ok {
+		list = &errorList{ErrAntlr}
+		d.err = list
 	}
-	d.err = errors.WithSecondaryError(d.err, err)
+	*list = append(*list, err)
 }
+
+// errorList 多个错误；只在需要时才拼接错误信息，
+// 否则错误很多时(如损坏的复数表达式)，每次添加都拼接会占用大量内存
+type errorList []error
+
+func (l *errorList) Error() string {
+	var sb strings.Builder
+	for i, err := range *l {
+		if i > 0 {
+			sb.WriteString(": ")
+		}
+		sb.WriteString(err.Error())
+	}
+	return sb.String()
+}
+
+func (l *errorList) Unwrap() []error { return *l }
-- 
2.43.0

