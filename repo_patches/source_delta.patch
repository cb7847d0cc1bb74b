From 8e39598b91c524939a3cb5507b8dc24a185bc9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:07 +0000
Subject: [PATCH 01/53] fix: dart copy/toMap of maps convert values with the
 value type and close the call

---
 pkg/dart/data.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index 792e74a..d499b92 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -386,13 +386,13 @@ func (b *Builder) printCopy(dst *build.Writer, name string, expr ast.Expr, data
 			dst.Code(name + "?.map((key,value) => MapEntry(")
 			b.printCopy(dst, "key", t.Key, data, empty)
 			dst.Code(",")
-			b.printCopy(dst, "value", t.Key, data, empty)
-			dst.Code(")")
+			b.printCopy(dst, "value", t.VType, data, empty)
+			dst.Code("))")
 		} else {
 			dst.Code(name + ".map((key,value) => MapEntry(")
 			b.printCopy(dst, "key", t.Key, data, empty)
 			dst.Code(",")
-			b.printCopy(dst, "value", t.Key, data, empty)
+			b.printCopy(dst, "value", t.VType, data, empty)
 			dst.Code("))")
 		}
 	case *ast.VarType:
@@ -581,13 +581,13 @@ func (b *Builder) printToMap(dst *build.Writer, name string, expr ast.Expr, data
 			dst.Code(name + "?.map((key,value) => MapEntry(")
 			b.printToMap(dst, "key", t.Key, data, empty)
 			dst.Code(",")
-			b.printToMap(dst, "value", t.Key, data, empty)
-			dst.Code(")")
+			b.printToMap(dst, "value", t.VType, data, empty)
+			dst.Code("))")
 		} else {
 			dst.Code(name + ".map((key,value) => MapEntry(")
 			b.printToMap(dst, "key", t.Key, data, empty)
 			dst.Code(",")
-			b.printToMap(dst, "value", t.Key, data, empty)
+			b.printToMap(dst, "value", t.VType, data, empty)
 			dst.Code("))")
 		}
 	case *ast.VarType:
-- 
2.43.0


From c58dcd0230e64c3a808c5db9accf91f30e781b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:16 +0000
Subject: [PATCH 02/53] fix: dart fromMap of nested containers converts the
 inner value, not the outer one

---
 pkg/dart/data.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index d499b92..5606ba7 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -473,15 +473,15 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 		t := expr.(*ast.ArrayType)
 		empty = t.IsEmpty()
 		if empty {
-			dst.Code("null == " + name + " ? null : (" + v + "! is! List ? null : (temp as List).map((temp) => ")
+			dst.Code("null == " + name + " ? null : (" + v + "! is! List ? null : (" + v + " as List).map((temp) => ")
 			b.printFormMap(dst, "temp", "temp", t.VType, data, empty)
 			dst.Code(").toList())")
 		} else {
 			dst.Code("null == " + name + " ? <")
 			b.printType(dst, t.VType, false)
-			dst.Code(">[] : (temp! is! List ? <")
+			dst.Code(">[] : (" + v + "! is! List ? <")
 			b.printType(dst, t.VType, false)
-			dst.Code(">[] : (temp as List).map((item) => ")
+			dst.Code(">[] : (" + v + " as List).map((item) => ")
 			b.printFormMap(dst, "item", "item", t.VType, data, empty)
 			dst.Code(").toList())")
 		}
@@ -489,7 +489,7 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 		t := expr.(*ast.MapType)
 		empty = t.IsEmpty()
 		if empty {
-			dst.Code("null == " + name + " ? null : (" + v + "! is! Map ? null : (temp as Map).map((key,value) => MapEntry(")
+			dst.Code("null == " + name + " ? null : (" + v + "! is! Map ? null : (" + v + " as Map).map((key,value) => MapEntry(")
 			b.printFormMap(dst, "key", "key", t.Key, data, empty)
 			dst.Code(",")
 			b.printFormMap(dst, "value", "value", t.VType, data, empty)
@@ -499,11 +499,11 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 			b.printType(dst, t.Key, false)
 			dst.Code(",")
 			b.printType(dst, t.VType, false)
-			dst.Code(">{}: (temp! is! Map ?<")
+			dst.Code(">{}: (" + v + "! is! Map ?<")
 			b.printType(dst, t.Key, false)
 			dst.Code(",")
 			b.printType(dst, t.VType, false)
-			dst.Code(">{} : (temp as Map).map((key,value) => MapEntry(")
+			dst.Code(">{} : (" + v + " as Map).map((key,value) => MapEntry(")
 			b.printFormMap(dst, "key", "key", t.Key, data, empty)
 			dst.Code(",")
 			b.printFormMap(dst, "value", "value", t.VType, data, empty)
-- 
2.43.0


From 894f32c550d141b447f8fe31fb3e01b5e859658e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 03/53] fix: dart generator reports verify errors instead of
 dropping them and truncating the file

---
 pkg/dart/dart.go | 23 ++++++++++++++++++-----
 pkg/dart/ui.go   | 23 ++++++++++++++++-------
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index 62b402b..d955e6b 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -188,25 +188,38 @@ func (b *Builder) Node(dst *DartWriter, fset *token.FileSet, node interface{}) e
 		switch s.(type) {
 		case *ast.ImportSpec:
 		case *ast.TypeSpec:
-			b.printTypeSpec(dst, (s.(*ast.TypeSpec)).Type)
+			err := b.printTypeSpec(dst, (s.(*ast.TypeSpec)).Type)
+			if err != nil {
+				return err
+			}
 		}
 	}
 	return nil
 }
 
-func (b *Builder) printTypeSpec(dst *DartWriter, expr ast.Expr) {
+func (b *Builder) printTypeSpec(dst *DartWriter, expr ast.Expr) error {
 	switch expr.(type) {
 	case *ast.DataType:
 		b.printDataCode(dst.data, expr.(*ast.DataType))
-		b.printFormCode(dst.ui, expr)
-		b.printVerifyCode(dst.verify, expr.(*ast.DataType))
+		err := b.printFormCode(dst.ui, expr)
+		if err != nil {
+			return err
+		}
+		err = b.printVerifyCode(dst.verify, expr.(*ast.DataType))
+		if err != nil {
+			return err
+		}
 	case *ast.ServerType:
 		b.printServerCode(dst.server, expr.(*ast.ServerType))
 
 	case *ast.EnumType:
 		b.printEnumCode(dst.enum, expr.(*ast.EnumType))
-		b.printFormCode(dst.ui, expr)
+		err := b.printFormCode(dst.ui, expr)
+		if err != nil {
+			return err
+		}
 	}
+	return nil
 }
 
 func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool) {
diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index 87c6ec9..78df2d8 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -7,7 +7,7 @@ import (
 )
 
 // 创建表单代码
-func (b *Builder) printFormCode(dst *build.Writer, expr ast.Expr) {
+func (b *Builder) printFormCode(dst *build.Writer, expr ast.Expr) error {
 	dst.Import("package:flutter/material.dart", "")
 
 	switch expr.(type) {
@@ -15,7 +15,10 @@ func (b *Builder) printFormCode(dst *build.Writer, expr ast.Expr) {
 		dst.Import("package:hbuf_flutter/hbuf_flutter.dart", "")
 		typ := expr.(*ast.DataType)
 		b.getPackage(dst, typ.Name, "")
-		b.printDataUi(dst, typ)
+		err := b.printDataUi(dst, typ)
+		if err != nil {
+			return err
+		}
 
 	case *ast.ServerType:
 
@@ -24,6 +27,7 @@ func (b *Builder) printFormCode(dst *build.Writer, expr ast.Expr) {
 		b.printEnumUi(dst, typ)
 	}
 
+	return nil
 }
 
 func (b *Builder) printEnumUi(dst *build.Writer, typ *ast.EnumType) {
@@ -133,19 +137,23 @@ func (b *Builder) getUI(tags []*ast.Tag) *ui {
 	return &form
 }
 
-func (b *Builder) printDataUi(dst *build.Writer, typ *ast.DataType) {
+func (b *Builder) printDataUi(dst *build.Writer, typ *ast.DataType) error {
 	u := b.getUI(typ.Tags)
 	if nil == u {
-		return
+		return nil
 	}
 
 	if u.form == "true" {
-		b.printForm(dst, typ, u)
+		err := b.printForm(dst, typ, u)
+		if err != nil {
+			return err
+		}
 	}
 	if u.table == "true" {
 		b.printTable(dst, typ, u)
 	}
 
+	return nil
 }
 
 func (b *Builder) printTable(dst *build.Writer, typ *ast.DataType, u *ui) {
@@ -477,7 +485,7 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 	}
 }
 
-func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
+func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) error {
 	name := build.StringToHumpName(typ.Name.Name)
 	lang := dst.GetLang(name)
 	dst.Code("class Form" + name + build.StringToHumpName(u.suffix) + "Build {\n")
@@ -749,7 +757,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 		return nil
 	})
 	if err != nil {
-		return
+		return err
 	}
 
 	dst.Code("\tList<Widget> build(BuildContext context, {Function(BuildContext context, Form" + name + build.StringToHumpName(u.suffix) + "Build ui)? builder}) {\n")
@@ -762,6 +770,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 	dst.Code("}\n\n")
 
 	dst.ImportByWriter(setValue)
+	return nil
 }
 
 func (b *Builder) printMenuItem(dst *build.Writer, expr ast.Expr, empty bool) {
-- 
2.43.0


From ccda83798254eedf0fd3635705f3d752c2b372b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:37 +0000
Subject: [PATCH 04/53] fix: files are checked and generated in the order of
 their paths, not in map order

---
 pkg/build/build.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index bb87369..d494ead 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -7,6 +7,7 @@ import (
 	"hbuf/pkg/token"
 	"path/filepath"
 	"regexp"
+	"sort"
 	"strings"
 )
 
@@ -131,7 +132,8 @@ func Build(out string, in string, typ string, pack string) error {
 		return err
 	}
 
-	for path, file := range build.pkg.Files {
+	for _, path := range build.paths() {
+		file := build.pkg.Files[path]
 		_, name := filepath.Split(path)
 		err := build.build(file, build.fset, &Param{
 			out:   filepath.Join(build.param.out, name),
@@ -146,8 +148,16 @@ func Build(out string, in string, typ string, pack string) error {
 	return nil
 }
 
+// paths 按路径排序，保证每次检查和生成的顺序一致
+func (b *Builder) paths() []string {
+	paths := GetMapKeys(b.pkg.Files)
+	sort.Strings(paths)
+	return paths
+}
+
 func (b *Builder) checkFiles() error {
-	for path, file := range b.pkg.Files {
+	for _, path := range b.paths() {
+		file := b.pkg.Files[path]
 		imports := map[string]void{
 			path: {},
 		}
-- 
2.43.0


From aceecc0d795da785177e2dcbdda23f1a7a2c1973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:38 +0000
Subject: [PATCH 05/53] fix: the command exits with a failure status when the
 build fails

---
 cmd/main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/main.go b/cmd/main.go
index 189ea4b..1c81fa2 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -9,6 +9,7 @@ import (
 	"hbuf/pkg/java"
 	ts "hbuf/pkg/typescript"
 	"log"
+	"os"
 )
 
 var version = "0.0.1"
@@ -46,12 +47,12 @@ func main() {
 	}
 	if !build.CheckType(*typ) {
 		fmt.Println(fmt.Errorf("Type error : %s", *typ))
-		return
+		os.Exit(1)
 	}
 
 	err := build.Build(*out, *in, *typ, *pack)
 	if err != nil {
 		fmt.Println(fmt.Errorf("Build error: %s", err))
-		return
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From a5343729908175f744cf46e9d37721155b5b824f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:11 +0000
Subject: [PATCH 06/53] fix: errors of writing and closing a generated file are
 returned instead of dropped

---
 pkg/dart/dart.go             | 19 ++++++++++---------
 pkg/golang/gloang.go         | 25 +++++++++++++------------
 pkg/java/java.go             | 19 ++++++++++---------
 pkg/typescript/typescript.go | 17 +++++++++--------
 4 files changed, 42 insertions(+), 38 deletions(-)

diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index d955e6b..410800e 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -1,6 +1,7 @@
 package dart
 
 import (
+	"bufio"
 	"go/printer"
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
@@ -139,18 +140,18 @@ func (b *Builder) GetDataType(file *ast.File, name string) *ast.Object {
 	return nil
 }
 
-func writerFile(data *build.Writer, out string) error {
+func writerFile(data *build.Writer, out string) (err error) {
 	fc, err := os.Create(out)
 	if err != nil {
 		return err
 	}
 	defer func(fc *os.File) {
-		err := fc.Close()
-		if err != nil {
-			print(err)
+		if e := fc.Close(); e != nil && err == nil {
+			err = e
 		}
 	}(fc)
-	_, _ = fc.WriteString("// @dart = 2.12\n\n")
+	w := bufio.NewWriter(fc)
+	_, _ = w.WriteString("// @dart = 2.12\n\n")
 	if 0 < len(data.GetImports()) {
 		imps := make([]string, len(data.GetImports()))
 
@@ -161,13 +162,13 @@ func writerFile(data *build.Writer, out string) error {
 		}
 		sort.Strings(imps)
 		for _, val := range imps {
-			_, _ = fc.WriteString("import '" + val + "';\n")
+			_, _ = w.WriteString("import '" + val + "';\n")
 		}
 	}
-	_, _ = fc.WriteString("\n")
+	_, _ = w.WriteString("\n")
 
-	_, _ = fc.WriteString(data.GetCode().String())
-	return nil
+	_, _ = w.WriteString(data.GetCode().String())
+	return w.Flush()
 }
 
 func (b *Builder) Node(dst *DartWriter, fset *token.FileSet, node interface{}) error {
diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index b67ee5b..0201462 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -1,6 +1,7 @@
 package golang
 
 import (
+	"bufio"
 	"go/printer"
 	ast "hbuf/pkg/ast"
 	"hbuf/pkg/build"
@@ -138,22 +139,22 @@ func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
 	return nil
 }
 
-func (b *Builder) writerFile(data *build.Writer, packages string, out string, i int) error {
+func (b *Builder) writerFile(data *build.Writer, packages string, out string, i int) (err error) {
 	fc, err := os.Create(out)
 	if err != nil {
 		return err
 	}
 	defer func(fc *os.File) {
-		err := fc.Close()
-		if err != nil {
-			print(err)
+		if e := fc.Close(); e != nil && err == nil {
+			err = e
 		}
 	}(fc)
+	w := bufio.NewWriter(fc)
 
-	_, _ = fc.WriteString("package " + packages + "\n\n")
+	_, _ = w.WriteString("package " + packages + "\n\n")
 
 	if 0 < len(data.GetImports()) {
-		_, _ = fc.WriteString("import (\n")
+		_, _ = w.WriteString("import (\n")
 		imps := make([]string, len(data.GetImports()))
 
 		i := 0
@@ -164,17 +165,17 @@ func (b *Builder) writerFile(data *build.Writer, packages string, out string, i
 		sort.Strings(imps)
 		for _, val := range imps {
 			key := data.GetImports()[val]
-			_, _ = fc.WriteString("\t")
+			_, _ = w.WriteString("\t")
 			if 0 < len(key) {
-				_, _ = fc.WriteString(key + " ")
+				_, _ = w.WriteString(key + " ")
 			}
-			_, _ = fc.WriteString("\"" + val + "\"\n")
+			_, _ = w.WriteString("\"" + val + "\"\n")
 		}
-		_, _ = fc.WriteString(")\n\n")
+		_, _ = w.WriteString(")\n\n")
 	}
 	code := data.GetCode().String()
-	_, _ = fc.WriteString(code[:len(code)-1])
-	return nil
+	_, _ = w.WriteString(code[:len(code)-1])
+	return w.Flush()
 }
 
 func (b *Builder) Node(dst *GoWriter, fset *token.FileSet, node interface{}) error {
diff --git a/pkg/java/java.go b/pkg/java/java.go
index 180c4fa..d787dee 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -1,6 +1,7 @@
 package java
 
 import (
+	"bufio"
 	"go/printer"
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
@@ -134,19 +135,19 @@ func (b *Builder) GetDataType(file *ast.File, name string) *ast.Object {
 	return nil
 }
 
-func writerFile(data *build.Writer, packages string, out string) error {
+func writerFile(data *build.Writer, packages string, out string) (err error) {
 	fc, err := os.Create(out)
 	if err != nil {
 		return err
 	}
 	defer func(fc *os.File) {
-		err := fc.Close()
-		if err != nil {
-			print(err)
+		if e := fc.Close(); e != nil && err == nil {
+			err = e
 		}
 	}(fc)
+	w := bufio.NewWriter(fc)
 
-	_, _ = fc.WriteString("package " + packages + ";\n\n")
+	_, _ = w.WriteString("package " + packages + ";\n\n")
 
 	if 0 < len(data.GetImports()) {
 		imps := make([]string, len(data.GetImports()))
@@ -158,12 +159,12 @@ func writerFile(data *build.Writer, packages string, out string) error {
 		}
 		sort.Strings(imps)
 		for _, val := range imps {
-			_, _ = fc.WriteString("import " + val + ";\n")
+			_, _ = w.WriteString("import " + val + ";\n")
 		}
 	}
-	_, _ = fc.WriteString("\n")
-	_, _ = fc.WriteString(data.GetCode().String())
-	return nil
+	_, _ = w.WriteString("\n")
+	_, _ = w.WriteString(data.GetCode().String())
+	return w.Flush()
 }
 
 func (b *Builder) Node(dst *JavaWriter, fset *token.FileSet, node interface{}) error {
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index ecfd7a7..547b0ff 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -1,6 +1,7 @@
 package ts
 
 import (
+	"bufio"
 	"go/printer"
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
@@ -157,17 +158,17 @@ func (b *Builder) GetDataType(file *ast.File, name string) *ast.Object {
 	return nil
 }
 
-func writerFile(data *build.Writer, out string) error {
+func writerFile(data *build.Writer, out string) (err error) {
 	fc, err := os.Create(out)
 	if err != nil {
 		return err
 	}
 	defer func(fc *os.File) {
-		err := fc.Close()
-		if err != nil {
-			print(err)
+		if e := fc.Close(); e != nil && err == nil {
+			err = e
 		}
 	}(fc)
+	w := bufio.NewWriter(fc)
 	if 0 < len(data.GetImports()) {
 		imps := make([]string, len(data.GetImports()))
 
@@ -179,13 +180,13 @@ func writerFile(data *build.Writer, out string) error {
 		}
 		sort.Strings(imps)
 		for _, val := range imps {
-			_, _ = fc.WriteString("import " + temp[val] + " from \"" + val + "\"\n")
+			_, _ = w.WriteString("import " + temp[val] + " from \"" + val + "\"\n")
 		}
 	}
-	_, _ = fc.WriteString("\n")
+	_, _ = w.WriteString("\n")
 
-	_, _ = fc.WriteString(data.GetCode().String())
-	return nil
+	_, _ = w.WriteString(data.GetCode().String())
+	return w.Flush()
 }
 
 func (b *Builder) Node(dst *DartWriter, fset *token.FileSet, node interface{}) error {
-- 
2.43.0


From c7d89c4080e4643e71ca74f41f404d8c27a7f5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:01 +0000
Subject: [PATCH 07/53] fix: go generator returns errors of database and
 binding parts instead of dropping them

---
 pkg/golang/database.go | 174 ++++++++++++++++++++++++++++++-----------
 pkg/golang/server.go   |   5 +-
 2 files changed, 133 insertions(+), 46 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 61777a3..e81bace 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -51,7 +51,10 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
 
 	dbs, wFields, key, err := b.getDBField(typ)
-	if 0 == len(dbs) || nil != err {
+	if nil != err {
+		return err
+	}
+	if 0 == len(dbs) {
 		return nil
 	}
 
@@ -68,7 +71,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		typ = table.Decl.(*ast.TypeSpec).Type.(*ast.DataType)
 		dbs, fields, key, err = b.getDBField(typ)
 		if nil != err {
-			return nil
+			return err
 		}
 		if len(dbs) == 0 {
 			return nil
@@ -91,7 +94,9 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		if "self" == val {
 			f = wFields
 		}
-		b.printListData(dst, typ, val, dbs[0], w, f, fType, c)
+		if err := b.printListData(dst, typ, val, dbs[0], w, f, fType, c); err != nil {
+			return err
+		}
 	}
 
 	if 0 < len(fDbs[0].Map) {
@@ -104,13 +109,17 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 				if "self" == val {
 					f = wFields
 				}
-				b.printMapData(dst, val, typ, dbs[0], w, f, fType, ks[0], c)
+				if err := b.printMapData(dst, val, typ, dbs[0], w, f, fType, ks[0], c); err != nil {
+					return err
+				}
 			}
 		}
 	}
 
 	if fDbs[0].Count {
-		b.printCountData(dst, typ, dbs[0], wFields, fType, fields, c)
+		if err := b.printCountData(dst, typ, dbs[0], wFields, fType, fields, c); err != nil {
+			return err
+		}
 	}
 
 	if fDbs[0].Del {
@@ -119,7 +128,9 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			key.Dbs[0].Where = []string{"AND id = ?"}
 			w = []*build.DBField{key}
 		}
-		b.printDeleteData(dst, dbs[0], w, fType, nil != c)
+		if err := b.printDeleteData(dst, dbs[0], w, fType, nil != c); err != nil {
+			return err
+		}
 	}
 
 	if fDbs[0].Remove {
@@ -128,7 +139,9 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			key.Dbs[0].Where = []string{"AND id = ?"}
 			w = []*build.DBField{key}
 		}
-		b.printRemoveData(dst, dbs[0], w, fType, nil != c)
+		if err := b.printRemoveData(dst, dbs[0], w, fType, nil != c); err != nil {
+			return err
+		}
 	}
 
 	val = strings.ToLower(fDbs[0].Insert)
@@ -138,7 +151,9 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		if "self" == val {
 			f = wFields
 		}
-		b.printInsertData(dst, typ, val, dbs[0], w, f, fType, key, c)
+		if err := b.printInsertData(dst, typ, val, dbs[0], w, f, fType, key, c); err != nil {
+			return err
+		}
 	}
 
 	val = strings.ToLower(fDbs[0].Inserts)
@@ -161,7 +176,9 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			key.Dbs[0].Where = []string{"AND id = ?"}
 			w = []*build.DBField{key}
 		}
-		b.printUpdateData(dst, typ, val, dbs[0], w, f, fType, c)
+		if err := b.printUpdateData(dst, typ, val, dbs[0], w, f, fType, c); err != nil {
+			return err
+		}
 	}
 
 	val = strings.ToLower(fDbs[0].Set)
@@ -175,7 +192,9 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			key.Dbs[0].Where = []string{"AND id = ?"}
 			w = []*build.DBField{key}
 		}
-		b.printSetData(dst, typ, val, dbs[0], w, f, fType, c)
+		if err := b.printSetData(dst, typ, val, dbs[0], w, f, fType, c); err != nil {
+			return err
+		}
 	}
 
 	val = strings.ToLower(fDbs[0].Get)
@@ -190,7 +209,9 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			key.Dbs[0].DefaultWhere = true
 			w = []*build.DBField{key}
 		}
-		b.printGetData(dst, typ, val, dbs[0], w, f, fType, c)
+		if err := b.printGetData(dst, typ, val, dbs[0], w, f, fType, c); err != nil {
+			return err
+		}
 	}
 	return nil
 }
@@ -275,7 +296,7 @@ func (b *Builder) getItemAndValue(fields []*build.DBField, key string) (strings.
 
 }
 
-func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page, orderBy, groupBy bool) *build.Writer {
+func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page, orderBy, groupBy bool) (*build.Writer, error) {
 	where := build.NewWriter()
 	where.Packages = dst.Packages
 
@@ -290,10 +311,14 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 					} else {
 						where.Code("\tif nil != g." + fieldName + " {\n")
 					}
-					_ = b.printParam(where, item, field, fields, "", "\t\ts")
+					if err := b.printParam(where, item, field, fields, "", "\t\ts"); err != nil {
+						return nil, err
+					}
 					where.Code("\t}\n")
 				} else {
-					_ = b.printParam(where, item, field, fields, "", "\ts")
+					if err := b.printParam(where, item, field, fields, "", "\ts"); err != nil {
+						return nil, err
+					}
 				}
 			} else {
 				if build.IsNil(field.Field.Type) {
@@ -303,10 +328,14 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 						where.Code(" && nil != g." + fieldName + "[" + strconv.Itoa(i) + "]")
 					}
 					where.Code(" {\n")
-					_ = b.printParam(where, item, field, fields, "["+strconv.Itoa(i)+"]", "\t\ts")
+					if err := b.printParam(where, item, field, fields, "["+strconv.Itoa(i)+"]", "\t\ts"); err != nil {
+						return nil, err
+					}
 					where.Code("\t}\n")
 				} else {
-					_ = b.printParam(where, item, field, fields, "["+strconv.Itoa(i)+"]", "\ts")
+					if err := b.printParam(where, item, field, fields, "["+strconv.Itoa(i)+"]", "\ts"); err != nil {
+						return nil, err
+					}
 				}
 			}
 		}
@@ -326,7 +355,9 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 					where.Code("\ts.T(\", \")")
 				}
 
-				_ = b.printParam(where, group, field, fields, "", "")
+				if err := b.printParam(where, group, field, fields, "", ""); err != nil {
+					return nil, err
+				}
 				if build.IsNil(field.Field.Type) {
 					where.Code("\t}\n")
 				}
@@ -350,7 +381,9 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 				where.Code(" {\n")
 				where.Code("\t\ts.T(\" ORDER BY \")")
 
-				_ = b.printParam(where, order, field, fields, "", "")
+				if err := b.printParam(where, order, field, fields, "", ""); err != nil {
+					return nil, err
+				}
 
 				where.Code("\t}\n")
 			}
@@ -368,7 +401,7 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 			}
 		}
 	}
-	return where
+	return where, nil
 }
 
 func (b *Builder) findField(fields []*build.DBField, name string) *build.DBField {
@@ -399,6 +432,11 @@ func (b *Builder) printParam(buf *build.Writer, text string, self *build.DBField
 				if t != "$" {
 					field = b.findField(fields, t[2:len(t)-1])
 				}
+				if nil == field {
+					return scanner.Error{
+						Msg: "Invalid name: " + t[2:len(t)-1],
+					}
+				}
 
 				buf.Code(".T(")
 				if build.IsNil(field.Field.Type) {
@@ -449,7 +487,7 @@ func (b *Builder) printParam(buf *build.Writer, text string, self *build.DBField
 	return nil
 }
 
-func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) {
+func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) error {
 	fName := build.StringToHumpName(fType.Name.Name)
 	dName := build.StringToHumpName(typ.Name.Name)
 	if typ != fType {
@@ -457,7 +495,10 @@ func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string
 	} else if "self" == key {
 		dName = fName
 	}
-	w := b.getParamWhere(dst, wFields, true, true, true)
+	w, err := b.getParamWhere(dst, wFields, true, true, true)
+	if err != nil {
+		return err
+	}
 	dst.AddImports(w.GetImports())
 
 	item, scan, _ := b.getItemAndValue(fields, key)
@@ -508,12 +549,13 @@ func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string
 	dst.Code("\treturn ret, nil\n")
 	dst.Code("}\n")
 	dst.Code("\n")
+	return nil
 }
 
-func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, keyName string, c *cache) {
+func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, keyName string, c *cache) error {
 	kType, KName, ok := b.getKey(dst, fields, keyName)
 	if !ok {
-		return
+		return nil
 	}
 	fName := build.StringToHumpName(fType.Name.Name)
 	dName := build.StringToHumpName(typ.Name.Name)
@@ -522,7 +564,10 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 	} else if "self" == key {
 		dName = fName
 	}
-	w := b.getParamWhere(dst, wFields, true, true, true)
+	w, err := b.getParamWhere(dst, wFields, true, true, true)
+	if err != nil {
+		return err
+	}
 	dst.AddImports(w.GetImports())
 	dst.AddImports(kType.GetImports())
 	dst.AddImports(KName.GetImports())
@@ -575,12 +620,16 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 	dst.Code("\treturn ret, nil\n")
 	dst.Code("}\n")
 	dst.Code("\n")
+	return nil
 }
 
-func (b *Builder) printCountData(dst *build.Writer, typ *ast.DataType, db *build.DB, wFields []*build.DBField, fType *ast.DataType, fFields []*build.DBField, c *cache) {
+func (b *Builder) printCountData(dst *build.Writer, typ *ast.DataType, db *build.DB, wFields []*build.DBField, fType *ast.DataType, fFields []*build.DBField, c *cache) error {
 	fName := build.StringToHumpName(fType.Name.Name)
 
-	w := b.getParamWhere(dst, wFields, false, false, true)
+	w, err := b.getParamWhere(dst, wFields, false, false, true)
+	if err != nil {
+		return err
+	}
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbCount(ctx context.Context) (int64, error) {\n")
@@ -624,12 +673,16 @@ func (b *Builder) printCountData(dst *build.Writer, typ *ast.DataType, db *build
 	dst.Code("\treturn count, nil\n")
 	dst.Code("}\n")
 	dst.Code("\n")
+	return nil
 }
 
-func (b *Builder) printDeleteData(dst *build.Writer, db *build.DB, wFields []*build.DBField, fType *ast.DataType, isCache bool) {
+func (b *Builder) printDeleteData(dst *build.Writer, db *build.DB, wFields []*build.DBField, fType *ast.DataType, isCache bool) error {
 	fName := build.StringToHumpName(fType.Name.Name)
 
-	w := b.getParamWhere(dst, wFields, true, false, false)
+	w, err := b.getParamWhere(dst, wFields, true, false, false)
+	if err != nil {
+		return err
+	}
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbDel(ctx context.Context) (int64, int64, error) {\n")
@@ -652,12 +705,16 @@ func (b *Builder) printDeleteData(dst *build.Writer, db *build.DB, wFields []*bu
 
 	dst.Code("\treturn s.Exec(ctx)\n")
 	dst.Code("}\n\n")
+	return nil
 }
 
-func (b *Builder) printRemoveData(dst *build.Writer, db *build.DB, wFields []*build.DBField, fType *ast.DataType, isCache bool) {
+func (b *Builder) printRemoveData(dst *build.Writer, db *build.DB, wFields []*build.DBField, fType *ast.DataType, isCache bool) error {
 	fName := build.StringToHumpName(fType.Name.Name)
 
-	w := b.getParamWhere(dst, wFields, true, false, false)
+	w, err := b.getParamWhere(dst, wFields, true, false, false)
+	if err != nil {
+		return err
+	}
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbRemove(ctx context.Context) (int64, int64, error) {\n")
@@ -676,14 +733,18 @@ func (b *Builder) printRemoveData(dst *build.Writer, db *build.DB, wFields []*bu
 
 	dst.Code("\treturn s.Exec(ctx)\n")
 	dst.Code("}\n\n")
+	return nil
 }
 
-func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, key *build.DBField, c *cache) {
+func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, key *build.DBField, c *cache) error {
 	fName := build.StringToHumpName(fType.Name.Name)
 	if typ != fType {
 		val = "parent"
 	}
-	w := b.getParamWhere(dst, wFields, false, false, false)
+	w, err := b.getParamWhere(dst, wFields, false, false, false)
+	if err != nil {
+		return err
+	}
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbInsert(ctx context.Context) (int64, int64, error) {\n")
@@ -698,12 +759,16 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 	dst.Code("\ts := db.NewSql()\n")
 	dst.Code("\ts.T(\"INSERT INTO \").T(tableName).T(\" SET \").Del(\",\")\n")
 
-	set := b.printSet(fields, val, false)
+	set, err := b.printSet(fields, val, false)
+	if err != nil {
+		return err
+	}
 	dst.AddImports(set.GetImports())
 	dst.Code(set.String())
 
 	dst.Code("\treturn s.Exec(ctx)\n")
 	dst.Code("}\n\n")
+	return nil
 }
 
 func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, db *build.DB, fields []*build.DBField, key *build.DBField, isCache bool) {
@@ -751,12 +816,15 @@ func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, db *
 	dst.Code("}\n\n")
 }
 
-func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) {
+func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) error {
 	fName := build.StringToHumpName(fType.Name.Name)
 	if typ != fType {
 		key = "parent"
 	}
-	w := b.getParamWhere(dst, fields, false, false, false)
+	w, err := b.getParamWhere(dst, fields, false, false, false)
+	if err != nil {
+		return err
+	}
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbUpdate(ctx context.Context) (int64, int64, error) {\n")
@@ -771,7 +839,10 @@ func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key stri
 	dst.Code("\ts := db.NewSql()\n")
 	dst.Code("\ts.T(\"UPDATE \").T(tableName).T(\" SET \").Del(\",\")\n")
 
-	set := b.printSet(fields, key, true)
+	set, err := b.printSet(fields, key, true)
+	if err != nil {
+		return err
+	}
 	dst.AddImports(set.GetImports())
 	dst.Code(set.String())
 
@@ -781,14 +852,18 @@ func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key stri
 
 	dst.Code("\treturn s.Exec(ctx)\n")
 	dst.Code("}\n\n")
+	return nil
 }
 
-func (b *Builder) printSetData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) {
+func (b *Builder) printSetData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) error {
 	fName := build.StringToHumpName(fType.Name.Name)
 	if typ != fType {
 		key = "parent"
 	}
-	w := b.getParamWhere(dst, wFields, false, false, false)
+	w, err := b.getParamWhere(dst, wFields, false, false, false)
+	if err != nil {
+		return err
+	}
 	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbSet(ctx context.Context) (int64, int64, error) {\n")
@@ -803,7 +878,10 @@ func (b *Builder) printSetData(dst *build.Writer, typ *ast.DataType, key string,
 	dst.Code("\ts := db.NewSql()\n")
 	dst.Code("\ts.T(\"UPDATE \").T(tableName).T(\" SET \").Del(\",\")\n")
 
-	set := b.printSet(fields, key, false)
+	set, err := b.printSet(fields, key, false)
+	if err != nil {
+		return err
+	}
 	dst.AddImports(set.GetImports())
 	dst.Code(set.String())
 
@@ -813,9 +891,10 @@ func (b *Builder) printSetData(dst *build.Writer, typ *ast.DataType, key string,
 
 	dst.Code("\treturn s.Exec(ctx)\n")
 	dst.Code("}\n\n")
+	return nil
 }
 
-func (b *Builder) printSet(fields []*build.DBField, key string, isNil bool) *build.Writer {
+func (b *Builder) printSet(fields []*build.DBField, key string, isNil bool) (*build.Writer, error) {
 	dst := build.NewWriter()
 	for _, field := range fields {
 		set := ""
@@ -835,17 +914,19 @@ func (b *Builder) printSet(fields []*build.DBField, key string, isNil bool) *bui
 		}
 
 		dst.Code("\ts.T(\",\")")
-		_ = b.printParam(dst, set, field, fields, "", "")
+		if err := b.printParam(dst, set, field, fields, "", ""); err != nil {
+			return nil, err
+		}
 
 		if isNil && build.IsNil(field.Field.Type) && !field.Dbs[0].Force {
 			dst.Code("\t}\n")
 		}
 	}
-	return dst
+	return dst, nil
 
 }
 
-func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) {
+func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) error {
 	fName := build.StringToHumpName(fType.Name.Name)
 	dName := build.StringToHumpName(typ.Name.Name)
 	if typ == fType {
@@ -856,7 +937,10 @@ func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string,
 		key = "self"
 	}
 
-	w := b.getParamWhere(dst, wFields, false, true, true)
+	w, err := b.getParamWhere(dst, wFields, false, true, true)
+	if err != nil {
+		return err
+	}
 	dst.AddImports(w.GetImports())
 
 	item, scan, _ := b.getItemAndValue(fields, key)
@@ -903,5 +987,5 @@ func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string,
 	}
 	dst.Code("\treturn val, nil\n")
 	dst.Code("}\n\n")
-
+	return nil
 }
diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 8c5df35..d84fc6d 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -109,7 +109,10 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 
 			dst.Code(" erro.NewError(\"not find server " + build.StringToUnderlineName(typ.Name.Name) + "\")\n")
 		} else {
-			b.printBinding(dst, method, bind, isSub)
+			err = b.printBinding(dst, method, bind, isSub)
+			if err != nil {
+				return err
+			}
 		}
 		dst.Code("}\n\n")
 	}
-- 
2.43.0


From 33118dd68bf5155191cf8b3e087fff663c1236a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:09 +0000
Subject: [PATCH 08/53] fix: an invalid cache min or max is reported instead of
 switching the cache off

---
 pkg/golang/database.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index e81bace..5d37d05 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -14,10 +14,10 @@ type cache struct {
 	max int
 }
 
-func getCache(name string, tags []*ast.Tag) *cache {
+func getCache(name string, tags []*ast.Tag) (*cache, error) {
 	val, ok := build.GetTag(tags, "cache")
 	if !ok {
-		return nil
+		return nil, nil
 	}
 
 	c := &cache{
@@ -29,21 +29,19 @@ func getCache(name string, tags []*ast.Tag) *cache {
 			if "min" == item.Name.Name {
 				val, err := strconv.Atoi(item.Values[0].Value[1 : len(item.Values[0].Value)-1])
 				if err != nil {
-					//TODO 添加错误处理
-					return nil
+					return nil, build.NewError(item.Pos(), "Invalid cache "+item.Name.Name+": "+name)
 				}
 				c.min = val
 			} else if "max" == item.Name.Name {
 				val, err := strconv.Atoi(item.Values[0].Value[1 : len(item.Values[0].Value)-1])
 				if err != nil {
-					//TODO 添加错误处理
-					return nil
+					return nil, build.NewError(item.Pos(), "Invalid cache "+item.Name.Name+": "+name)
 				}
 				c.max = val
 			}
 		}
 	}
-	return c
+	return c, nil
 }
 
 func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error {
@@ -58,7 +56,10 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		return nil
 	}
 
-	c := getCache(typ.Name.Name, typ.Tags)
+	c, err := getCache(typ.Name.Name, typ.Tags)
+	if nil != err {
+		return build.ErrorToFileError(err, b.fSet)
+	}
 
 	fDbs := dbs
 	fields := wFields
-- 
2.43.0


From 42abb320a2b6472142467cfa530cffe20458261c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:25 +0000
Subject: [PATCH 09/53] fix: a '.' before a digit is an illegal character
 instead of an endless loop in the scanner

---
 pkg/scanner/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 1d3d44d..62be993 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -708,7 +708,7 @@ scanAgain:
 			insertSemi = true
 			tok = token.IDENT
 		}
-	case isDecimal(ch) || ch == '.' && isDecimal(rune(s.peek())):
+	case isDecimal(ch):
 		insertSemi = true
 		tok, lit = s.scanNumber()
 	default:
-- 
2.43.0


From fee7062496658988afa1bf4c26651fddaa2ff951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:27 +0000
Subject: [PATCH 10/53] fix: a file that begins with a scan error is reported
 instead of crashing the parser

---
 pkg/parser/interface.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/interface.go b/pkg/parser/interface.go
index 3a58826..1c4fe92 100644
--- a/pkg/parser/interface.go
+++ b/pkg/parser/interface.go
@@ -83,7 +83,9 @@ func ParseFile(fset *token.FileSet, filename string, src interface{}, mode Mode)
 	// parse source
 	p.init(fset, filename, text, mode)
 	f = p.parseFile()
-	f.Path = filename
+	if f != nil {
+		f.Path = filename
+	}
 	return
 }
 
-- 
2.43.0


From 32fcbf243c17c87d67d1b8e83b3a191ec07b0006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:28 +0000
Subject: [PATCH 11/53] fix: an array or map as method type is a syntax error
 instead of a crash

---
 pkg/parser/parser.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index a0fc84d..4f02dd3 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -595,6 +595,19 @@ func (p *parser) parseVarType() ast.Type {
 	return typ
 }
 
+// 解析方法的参数和返回类型，不能是数组或Map
+func (p *parser) parseMethodType() *ast.VarType {
+	pos := p.pos
+	typ := p.parseVarType()
+	if v, ok := typ.(*ast.VarType); ok {
+		return v
+	}
+	p.error(pos, "method type cannot be array or map")
+	return &ast.VarType{
+		TypeExpr: &ast.BadExpr{From: pos, To: p.pos},
+	}
+}
+
 func (p *parser) parseMethodSpec() *ast.FuncType {
 	if p.trace {
 		defer un(trace(p, "MethodSpec"))
@@ -602,18 +615,18 @@ func (p *parser) parseMethodSpec() *ast.FuncType {
 
 	doc := p.leadComment
 	tags := p.parseTags()
-	result := p.parseVarType()
+	result := p.parseMethodType()
 	name := p.parseIdent()
 	p.expect(token.LPAREN)
-	param := p.parseVarType()
+	param := p.parseMethodType()
 	paramName := p.parseIdent()
 	p.expect(token.RPAREN)
 	id := p.parseId()
 
 	var typ = &ast.FuncType{
-		Result:    result.(*ast.VarType),
+		Result:    result,
 		Name:      name,
-		Param:     param.(*ast.VarType),
+		Param:     param,
 		ParamName: paramName,
 		Doc:       doc,
 		Comment:   doc,
-- 
2.43.0


From 8c51e8ef014651d580e2631827c53640aea96030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:29 +0000
Subject: [PATCH 12/53] fix: the parser no longer skips an unexpected token
 after an enum item name or a method

---
 pkg/parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 4f02dd3..f8607e6 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -842,7 +842,7 @@ func (p *parser) parseEnumItem(scope *ast.Scope) *ast.EnumItem {
 	name := p.parseIdent()
 
 	var id *ast.BasicLit
-	p.next()
+	p.expect(token.ASSIGN)
 	if p.tok != token.INT {
 		p.errorExpected(p.pos, "not find int")
 	}
@@ -873,7 +873,7 @@ func (p *parser) parseServerSpec(doc *ast.CommentGroup, tags []*ast.Tag) ast.Spe
 	var list []*ast.FuncType
 	for p.tok != token.RBRACE && p.tok != token.EOF {
 		list = append(list, p.parseMethodSpec())
-		p.next()
+		p.expectSemi()
 	}
 	rbrace := p.expect(token.RBRACE)
 
-- 
2.43.0


From b7af734969965dd970638f8c65cff721f7154b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:30 +0000
Subject: [PATCH 13/53] fix: an unknown map key type is reported instead of
 crashing

---
 pkg/build/build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index d494ead..c605c5b 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -275,7 +275,7 @@ func (b *Builder) checkDataMapKey(file *ast.File, varType *ast.VarType) error {
 			return nil
 		}
 		obj := b.GetDataType(file, varType.TypeExpr.(*ast.Ident).Name)
-		if obj.Kind == ast.Enum {
+		if nil != obj && obj.Kind == ast.Enum {
 			varType.TypeExpr.(*ast.Ident).Obj = obj
 			return nil
 		}
-- 
2.43.0


From 25cd61c68d8dbbbaffe9ce4ff163800e5423736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:31 +0000
Subject: [PATCH 14/53] fix: repeated keys are checked in every tag, and tags
 of enums are checked

---
 pkg/build/build.go | 5 ++++-
 pkg/build/enum.go  | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index c605c5b..d02b161 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -320,7 +320,10 @@ func (b *Builder) checkTags(tags []*ast.Tag) error {
 	}
 
 	for _, tag := range tags {
-		return b.checkKeyValue(tag.KV)
+		err := b.checkKeyValue(tag.KV)
+		if err != nil {
+			return err
+		}
 	}
 	return nil
 }
diff --git a/pkg/build/enum.go b/pkg/build/enum.go
index aa4acf6..a24da0e 100644
--- a/pkg/build/enum.go
+++ b/pkg/build/enum.go
@@ -6,6 +6,10 @@ import (
 )
 
 func (b *Builder) checkEnum(file *ast.File, enum *ast.EnumType, index int) error {
+	err := b.checkTags(enum.Tags)
+	if err != nil {
+		return err
+	}
 	name := enum.Name.Name
 	if _, ok := _keys[BaseType(name)]; ok {
 		return scanner.Error{
@@ -21,7 +25,7 @@ func (b *Builder) checkEnum(file *ast.File, enum *ast.EnumType, index int) error
 		}
 	}
 
-	err := b.checkEnumItem(file, enum)
+	err = b.checkEnumItem(file, enum)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 6a676e255b5d3814edb102a22710d0b21f2fc3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:33 +0000
Subject: [PATCH 15/53] fix: every where condition is cut at its own length,
 not at the length of the first

---
 pkg/build/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/build/database.go b/pkg/build/database.go
index 15c700b..925bb8d 100644
--- a/pkg/build/database.go
+++ b/pkg/build/database.go
@@ -74,7 +74,7 @@ func GetDB(n string, tag []*ast.Tag) []*DB {
 					} else if "where" == item.Name.Name {
 						where := make([]string, len(item.Values))
 						for i, val := range item.Values {
-							where[i] = val.Value[1 : len(item.Values[0].Value)-1]
+							where[i] = val.Value[1 : len(val.Value)-1]
 						}
 						db.Where = where
 					} else if "offset" == item.Name.Name {
-- 
2.43.0


From 78afbeab9f73670e008309a41b805630022a7ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:34 +0000
Subject: [PATCH 16/53] fix: names with leading or repeated underscores no
 longer crash the name conversion

---
 pkg/build/build.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index d02b161..eac4436 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -441,6 +441,9 @@ func StringToHumpName(val string) string {
 	temp := strings.Split(val, "_")
 	var ret string
 	for _, item := range temp {
+		if 0 == len(item) {
+			continue
+		}
 		ret += strings.ToUpper(item[:1])
 		ret += item[1:]
 	}
@@ -455,9 +458,15 @@ func StringToFirstLower(val string) string {
 	temp := strings.Split(val, "_")
 	var ret string
 	for _, item := range temp {
+		if 0 == len(item) {
+			continue
+		}
 		ret += strings.ToUpper(item[:1])
 		ret += item[1:]
 	}
+	if 0 == len(ret) {
+		return ret
+	}
 	return strings.ToLower(ret[:1]) + ret[1:]
 }
 
-- 
2.43.0


From 7cae0e22e46bb7614bb3c635237adcbb43a7425e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:35 +0000
Subject: [PATCH 17/53] fix: a verify or bind value without a dot is reported
 instead of crashing

---
 pkg/build/binding.go | 2 +-
 pkg/build/verify.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/build/binding.go b/pkg/build/binding.go
index 8fbfa79..c59442f 100644
--- a/pkg/build/binding.go
+++ b/pkg/build/binding.go
@@ -25,7 +25,7 @@ func GetBinding(tags []*ast.Tag, file *ast.File, getType func(file *ast.File, na
 					return nil, NewError(item.Pos()+1, "Not set value")
 				}
 				temp := strings.Split(value, ".")
-				if 0 == len(temp) {
+				if 2 > len(temp) {
 					return nil, NewError(item.Pos()+1, "Not find server method:"+value)
 				}
 
diff --git a/pkg/build/verify.go b/pkg/build/verify.go
index 662eecf..c77f15d 100644
--- a/pkg/build/verify.go
+++ b/pkg/build/verify.go
@@ -36,7 +36,7 @@ func GetVerify(tags []*ast.Tag, file *ast.File, getType func(file *ast.File, nam
 					return nil, NewError(i.Pos()+1, "Not set format")
 				}
 				temp := strings.Split(format, ".")
-				if 0 == len(temp) {
+				if 2 > len(temp) {
 					return nil, NewError(i.Pos()+1, "Not find enum field:"+format)
 				}
 
-- 
2.43.0


From 4d2edea3b83e2eedecbb73dbb7caccd5844dcc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:36 +0000
Subject: [PATCH 18/53] fix: go DbUpdate takes its WHERE from the condition
 fields, like DbSet, not from the fields it sets

---
 pkg/golang/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 5d37d05..b4e1c53 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -822,7 +822,7 @@ func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key stri
 	if typ != fType {
 		key = "parent"
 	}
-	w, err := b.getParamWhere(dst, fields, false, false, false)
+	w, err := b.getParamWhere(dst, wFields, false, false, false)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From c52089f52aeebf2030696981189d77ea97a00756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:56 +0000
Subject: [PATCH 19/53] fix: output names of files without the .hbuf suffix no
 longer crash

---
 pkg/dart/dart.go             | 5 +++--
 pkg/golang/gloang.go         | 2 +-
 pkg/java/java.go             | 5 +++--
 pkg/typescript/typescript.go | 5 +++--
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index 410800e..aa95a5b 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strings"
 )
 
 var _types = map[build.BaseType]string{
@@ -66,7 +67,7 @@ func Build(file *ast.File, fset *token.FileSet, param *build.Param) error {
 	}
 
 	dir, name := filepath.Split(param.GetOut())
-	name = name[:len(name)-len(".hbuf")]
+	name = strings.TrimSuffix(name, ".hbuf")
 
 	err = os.MkdirAll(dir, os.ModePerm)
 	if err != nil {
@@ -275,7 +276,7 @@ func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr, s string) string
 	}
 
 	_, name := filepath.Split(file.(*ast.File).Path)
-	name = name[:len(name)-len(".hbuf")]
+	name = strings.TrimSuffix(name, ".hbuf")
 	if 0 < len(s) {
 		name = name + "." + s + ".dart"
 	} else {
diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index 0201462..c163347 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -95,7 +95,7 @@ func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
 	}
 
 	dir, name := filepath.Split(param.GetOut())
-	name = name[:len(name)-len(".hbuf")]
+	name = strings.TrimSuffix(name, ".hbuf")
 	packs := strings.Split(dst.packages, ".")
 	for _, pack := range packs {
 		dir = filepath.Join(dir, pack)
diff --git a/pkg/java/java.go b/pkg/java/java.go
index d787dee..36e10c6 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strings"
 )
 
 var _types = map[build.BaseType]string{
@@ -74,7 +75,7 @@ func Build(file *ast.File, fset *token.FileSet, param *build.Param) error {
 	}
 
 	dir, name := filepath.Split(param.GetOut())
-	name = build.StringToHumpName(name[:len(name)-len(".hbuf")])
+	name = build.StringToHumpName(strings.TrimSuffix(name, ".hbuf"))
 
 	err = os.MkdirAll(dir, os.ModePerm)
 	if err != nil {
@@ -270,7 +271,7 @@ func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr, s string) string
 	}
 
 	_, name := filepath.Split(file.(*ast.File).Path)
-	name = dst.Packages + "." + build.StringToHumpName(name[:len(name)-len(".hbuf")])
+	name = dst.Packages + "." + build.StringToHumpName(strings.TrimSuffix(name, ".hbuf"))
 	if 0 < len(s) {
 		name = name + "." + s + ".dart"
 	} else {
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index 547b0ff..9d34189 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strings"
 	"strconv"
 )
 
@@ -78,7 +79,7 @@ func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
 	}
 
 	dir, name := filepath.Split(param.GetOut())
-	name = name[:len(name)-len(".hbuf")]
+	name = strings.TrimSuffix(name, ".hbuf")
 
 	err = os.MkdirAll(dir, os.ModePerm)
 	if err != nil {
@@ -306,7 +307,7 @@ func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr, s string) string
 	}
 
 	_, name := filepath.Split(file.(*ast.File).Path)
-	name = name[:len(name)-len(".hbuf")]
+	name = strings.TrimSuffix(name, ".hbuf")
 	if 0 < len(s) {
 		name = name + "." + s
 	} else {
-- 
2.43.0


From cfaec2f4e30a8d993331aaa00a5427ee8a4a5e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:57 +0000
Subject: [PATCH 20/53] fix: input and import names are taken from the whole
 path, and the input pattern matches whole names

---
 pkg/build/build.go      | 4 ++--
 pkg/parser/interface.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index eac4436..b250158 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -113,8 +113,8 @@ func NewBuilder(build Function, param *Param) *Builder {
 func Build(out string, in string, typ string, pack string) error {
 	in = filepath.Clean(in)
 	path := filepath.Dir(in)
-	name := in[len(path)+1:]
-	reg, err := regexp.Compile(strings.ReplaceAll(name, "*", "(.*)"))
+	name := filepath.Base(in)
+	reg, err := regexp.Compile("^" + strings.ReplaceAll(regexp.QuoteMeta(name), "\\*", "(.*)") + "$")
 	if err != nil {
 		return err
 	}
diff --git a/pkg/parser/interface.go b/pkg/parser/interface.go
index 1c4fe92..785b143 100644
--- a/pkg/parser/interface.go
+++ b/pkg/parser/interface.go
@@ -139,7 +139,7 @@ func parseDirFile(fset *token.FileSet, pkg *ast.Package, path string, name strin
 			spec.Path.Value = imp
 		}
 		path := filepath.Dir(imp)
-		name := imp[len(path)+1:]
+		name := filepath.Base(imp)
 		err := parseDirFile(fset, pkg, path, name)
 		if err != nil {
 			switch err.(type) {
-- 
2.43.0


From 1fcb6b856404eda596285b3ed1314de6b0c3ed1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:10 +0000
Subject: [PATCH 21/53] fix: the parser prints its trace only when tracing is
 on

---
 pkg/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index f8607e6..fe9e41b 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -653,7 +653,7 @@ func (p *parser) parseMapType(value *ast.VarType) *ast.MapType {
 }
 
 func (p *parser) tryIdentOrType() ast.Type {
-	if p.tok != token.IDENT {
+	if p.trace {
 		defer un(trace(p, "TypeName"))
 	}
 	v := &ast.VarType{
-- 
2.43.0


From 4e0bcf0c7b72361ab7cbaf3becc2d4a7dfe4be74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:29 +0000
Subject: [PATCH 22/53] fix: cyclic extends are reported instead of overflowing
 the stack of the generators

---
 pkg/build/build.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index b250158..1dbe75b 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -166,7 +166,43 @@ func (b *Builder) checkFiles() error {
 			return err
 		}
 	}
+	for _, path := range b.paths() {
+		for _, s := range b.pkg.Files[path].Specs {
+			if spec, ok := s.(*ast.TypeSpec); ok {
+				err := b.checkCyclicExtends(spec, map[*ast.TypeSpec]bool{})
+				if err != nil {
+					return err
+				}
+			}
+		}
+	}
+	return nil
+}
 
+// checkCyclicExtends 检查是否直接或间接继承自己
+func (b *Builder) checkCyclicExtends(spec *ast.TypeSpec, open map[*ast.TypeSpec]bool) error {
+	var extends []*ast.Extends
+	switch t := spec.Type.(type) {
+	case *ast.DataType:
+		extends = t.Extends
+	case *ast.ServerType:
+		extends = t.Extends
+	}
+	open[spec] = true
+	for _, item := range extends {
+		base := item.Name.Obj.Decl.(*ast.TypeSpec)
+		if open[base] {
+			return scanner.Error{
+				Pos: b.fset.Position(item.Name.NamePos),
+				Msg: "Cyclic extends: " + item.Name.Name,
+			}
+		}
+		err := b.checkCyclicExtends(base, open)
+		if err != nil {
+			return err
+		}
+	}
+	delete(open, spec)
 	return nil
 }
 
-- 
2.43.0


From 968e1b9b224982f9fc1c089f968ad771adf24465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 23/53] fix: every generator error that knows its place in the
 input is reported with file and line

---
 pkg/build/build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 1dbe75b..283e6fd 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -142,7 +142,7 @@ func Build(out string, in string, typ string, pack string) error {
 			build: build,
 		})
 		if err != nil {
-			return err
+			return ErrorToFileError(err, build.fset)
 		}
 	}
 	return nil
-- 
2.43.0


From ff2c1f70f3380599bd6129ed14df7cd513916b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 24/53] fix: an invalid number in a ui tag is reported instead
 of dropping the user interface

---
 pkg/dart/ui.go               | 49 +++++++++++++-----------
 pkg/typescript/typescript.go | 12 ++++--
 pkg/typescript/ui.go         | 73 ++++++++++++++++++++++--------------
 3 files changed, 81 insertions(+), 53 deletions(-)

diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index 78df2d8..ca28658 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -60,10 +60,10 @@ type ui struct {
 	maxCount   int
 }
 
-func (b *Builder) getUI(tags []*ast.Tag) *ui {
+func (b *Builder) getUI(tags []*ast.Tag) (*ui, error) {
 	val, ok := build.GetTag(tags, "ui")
 	if !ok {
-		return nil
+		return nil, nil
 	}
 	form := ui{
 		width:      300,
@@ -83,15 +83,13 @@ func (b *Builder) getUI(tags []*ast.Tag) *ui {
 			} else if "digit" == item.Name.Name {
 				atoi, err := strconv.Atoi(item.Values[0].Value[1 : len(item.Values[0].Value)-1])
 				if err != nil {
-					//TODO 添加错误处理
-					return nil
+					return nil, build.NewError(item.Pos(), "Invalid ui "+item.Name.Name+": "+item.Values[0].Value)
 				}
 				form.digit = atoi
 			} else if "index" == item.Name.Name {
 				atoi, err := strconv.Atoi(item.Values[0].Value[1 : len(item.Values[0].Value)-1])
 				if err != nil {
-					//TODO 添加错误处理
-					return nil
+					return nil, build.NewError(item.Pos(), "Invalid ui "+item.Name.Name+": "+item.Values[0].Value)
 				}
 				form.index = &atoi
 			} else if "format" == item.Name.Name {
@@ -99,29 +97,25 @@ func (b *Builder) getUI(tags []*ast.Tag) *ui {
 			} else if "width" == item.Name.Name {
 				atoi, err := strconv.ParseFloat(item.Values[0].Value[1:len(item.Values[0].Value)-1], 10)
 				if err != nil {
-					//TODO 添加错误处理
-					return nil
+					return nil, build.NewError(item.Pos(), "Invalid ui "+item.Name.Name+": "+item.Values[0].Value)
 				}
 				form.width = atoi
 			} else if "height" == item.Name.Name {
 				atoi, err := strconv.ParseFloat(item.Values[0].Value[1:len(item.Values[0].Value)-1], 10)
 				if err != nil {
-					//TODO 添加错误处理
-					return nil
+					return nil, build.NewError(item.Pos(), "Invalid ui "+item.Name.Name+": "+item.Values[0].Value)
 				}
 				form.height = atoi
 			} else if "maxLine" == item.Name.Name {
 				atoi, err := strconv.ParseInt(item.Values[0].Value[1:len(item.Values[0].Value)-1], 10, 64)
 				if err != nil {
-					println(err.Error())
-					return nil
+					return nil, build.NewError(item.Pos(), "Invalid ui "+item.Name.Name+": "+item.Values[0].Value)
 				}
 				form.maxLine = int(atoi)
 			} else if "maxCount" == item.Name.Name {
 				atoi, err := strconv.ParseInt(item.Values[0].Value[1:len(item.Values[0].Value)-1], 10, 64)
 				if err != nil {
-					println(err.Error())
-					return nil
+					return nil, build.NewError(item.Pos(), "Invalid ui "+item.Name.Name+": "+item.Values[0].Value)
 				}
 				form.maxCount = int(atoi)
 			} else if "clip" == item.Name.Name {
@@ -134,11 +128,14 @@ func (b *Builder) getUI(tags []*ast.Tag) *ui {
 			}
 		}
 	}
-	return &form
+	return &form, nil
 }
 
 func (b *Builder) printDataUi(dst *build.Writer, typ *ast.DataType) error {
-	u := b.getUI(typ.Tags)
+	u, err := b.getUI(typ.Tags)
+	if err != nil {
+		return err
+	}
 	if nil == u {
 		return nil
 	}
@@ -150,13 +147,16 @@ func (b *Builder) printDataUi(dst *build.Writer, typ *ast.DataType) error {
 		}
 	}
 	if u.table == "true" {
-		b.printTable(dst, typ, u)
+		err := b.printTable(dst, typ, u)
+		if err != nil {
+			return err
+		}
 	}
 
 	return nil
 }
 
-func (b *Builder) printTable(dst *build.Writer, typ *ast.DataType, u *ui) {
+func (b *Builder) printTable(dst *build.Writer, typ *ast.DataType, u *ui) error {
 	name := build.StringToHumpName(typ.Name.Name)
 	lang := dst.GetLang(name)
 	dst.Code("class Table" + name + build.StringToHumpName(u.suffix) + "Build {\n")
@@ -215,7 +215,10 @@ func (b *Builder) printTable(dst *build.Writer, typ *ast.DataType, u *ui) {
 	i := 0
 	err := build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
 
-		table := b.getUI(field.Tags)
+		table, err := b.getUI(field.Tags)
+		if err != nil {
+			return err
+		}
 		if nil == table || 0 == len(table.table) {
 			return nil
 		}
@@ -319,13 +322,14 @@ func (b *Builder) printTable(dst *build.Writer, typ *ast.DataType, u *ui) {
 		return nil
 	})
 	if err != nil {
-		return
+		return err
 	}
 
 	dst.Code("\t\tbuilder?.call(this);\n")
 	dst.Code("\t\treturn tables.build(context);\n")
 	dst.Code("\t}\n")
 	dst.Code("}\n\n")
+	return nil
 }
 
 func (b *Builder) printToString(dst *build.Writer, expr ast.Expr, empty bool, digit int, format string, val string) {
@@ -504,7 +508,10 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) error {
 	fields := build.NewWriter()
 	setValue := build.NewWriter()
 	err := build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
-		form := b.getUI(field.Tags)
+		form, err := b.getUI(field.Tags)
+		if err != nil {
+			return err
+		}
 		fieldName := build.StringToFirstLower(field.Name.Name)
 		if nil == form {
 			return nil
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index 9d34189..4e049e5 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -221,8 +221,11 @@ func (b *Builder) printTypeSpec(dst *DartWriter, expr ast.Expr) error {
 	switch expr.(type) {
 	case *ast.DataType:
 		b.printDataCode(dst.data, expr.(*ast.DataType))
-		b.printFormCode(dst.ui, expr)
-		err := b.printVerifyCode(dst.verify, expr.(*ast.DataType))
+		err := b.printFormCode(dst.ui, expr)
+		if err != nil {
+			return err
+		}
+		err = b.printVerifyCode(dst.verify, expr.(*ast.DataType))
 		if err != nil {
 			return err
 		}
@@ -231,7 +234,10 @@ func (b *Builder) printTypeSpec(dst *DartWriter, expr ast.Expr) error {
 
 	case *ast.EnumType:
 		b.printEnumCode(dst.enum, expr.(*ast.EnumType))
-		b.printFormCode(dst.ui, expr)
+		err := b.printFormCode(dst.ui, expr)
+		if err != nil {
+			return err
+		}
 	}
 	return nil
 }
diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index 024327a..613fdd0 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -7,14 +7,17 @@ import (
 )
 
 // 创建表单代码
-func (b *Builder) printFormCode(dst *build.Writer, expr ast.Expr) {
+func (b *Builder) printFormCode(dst *build.Writer, expr ast.Expr) error {
 
 	switch expr.(type) {
 	case *ast.DataType:
 		dst.Import("vue", "{defineComponent}")
 		typ := expr.(*ast.DataType)
 		b.getPackage(dst, typ.Name, "")
-		b.printDataUi(dst, typ)
+		err := b.printDataUi(dst, typ)
+		if err != nil {
+			return err
+		}
 
 	case *ast.ServerType:
 
@@ -23,6 +26,7 @@ func (b *Builder) printFormCode(dst *build.Writer, expr ast.Expr) {
 		b.printEnumUi(dst, typ)
 	}
 
+	return nil
 }
 
 func (b *Builder) printEnumUi(dst *build.Writer, typ *ast.EnumType) {
@@ -57,10 +61,10 @@ type ui struct {
 	maxCount   int
 }
 
-func (b *Builder) getUI(tags []*ast.Tag) *ui {
+func (b *Builder) getUI(tags []*ast.Tag) (*ui, error) {
 	val, ok := build.GetTag(tags, "ui")
 	if !ok {
-		return nil
+		return nil, nil
 	}
 	form := ui{
 		width:      160,
@@ -80,15 +84,13 @@ func (b *Builder) getUI(tags []*ast.Tag) *ui {
 			} else if "digit" == item.Name.Name {
 				atoi, err := strconv.Atoi(item.Values[0].Value[1 : len(item.Values[0].Value)-1])
 				if err != nil {
-					//TODO 添加错误处理
-					return nil
+					return nil, build.NewError(item.Pos(), "Invalid ui "+item.Name.Name+": "+item.Values[0].Value)
 				}
 				form.digit = atoi
 			} else if "index" == item.Name.Name {
 				atoi, err := strconv.Atoi(item.Values[0].Value[1 : len(item.Values[0].Value)-1])
 				if err != nil {
-					//TODO 添加错误处理
-					return nil
+					return nil, build.NewError(item.Pos(), "Invalid ui "+item.Name.Name+": "+item.Values[0].Value)
 				}
 				form.index = &atoi
 			} else if "format" == item.Name.Name {
@@ -96,29 +98,25 @@ func (b *Builder) getUI(tags []*ast.Tag) *ui {
 			} else if "width" == item.Name.Name {
 				atoi, err := strconv.ParseFloat(item.Values[0].Value[1:len(item.Values[0].Value)-1], 10)
 				if err != nil {
-					//TODO 添加错误处理
-					return nil
+					return nil, build.NewError(item.Pos(), "Invalid ui "+item.Name.Name+": "+item.Values[0].Value)
 				}
 				form.width = atoi
 			} else if "height" == item.Name.Name {
 				atoi, err := strconv.ParseFloat(item.Values[0].Value[1:len(item.Values[0].Value)-1], 10)
 				if err != nil {
-					//TODO 添加错误处理
-					return nil
+					return nil, build.NewError(item.Pos(), "Invalid ui "+item.Name.Name+": "+item.Values[0].Value)
 				}
 				form.height = atoi
 			} else if "maxLine" == item.Name.Name {
 				atoi, err := strconv.ParseInt(item.Values[0].Value[1:len(item.Values[0].Value)-1], 10, 64)
 				if err != nil {
-					println(err.Error())
-					return nil
+					return nil, build.NewError(item.Pos(), "Invalid ui "+item.Name.Name+": "+item.Values[0].Value)
 				}
 				form.maxLine = int(atoi)
 			} else if "maxCount" == item.Name.Name {
 				atoi, err := strconv.ParseInt(item.Values[0].Value[1:len(item.Values[0].Value)-1], 10, 64)
 				if err != nil {
-					println(err.Error())
-					return nil
+					return nil, build.NewError(item.Pos(), "Invalid ui "+item.Name.Name+": "+item.Values[0].Value)
 				}
 				form.maxCount = int(atoi)
 			} else if "clip" == item.Name.Name {
@@ -134,25 +132,35 @@ func (b *Builder) getUI(tags []*ast.Tag) *ui {
 			}
 		}
 	}
-	return &form
+	return &form, nil
 }
 
-func (b *Builder) printDataUi(dst *build.Writer, typ *ast.DataType) {
-	u := b.getUI(typ.Tags)
+func (b *Builder) printDataUi(dst *build.Writer, typ *ast.DataType) error {
+	u, err := b.getUI(typ.Tags)
+	if err != nil {
+		return err
+	}
 	if nil == u {
-		return
+		return nil
 	}
 
 	if u.form == "true" {
-		b.printForm(dst, typ, u)
+		err := b.printForm(dst, typ, u)
+		if err != nil {
+			return err
+		}
 	}
 	if u.table == "true" {
-		b.printTable(dst, typ, u)
+		err := b.printTable(dst, typ, u)
+		if err != nil {
+			return err
+		}
 	}
 
+	return nil
 }
 
-func (b *Builder) printTable(dst *build.Writer, typ *ast.DataType, u *ui) {
+func (b *Builder) printTable(dst *build.Writer, typ *ast.DataType, u *ui) error {
 	name := build.StringToHumpName(typ.Name.Name)
 	lang := dst.GetLang(name)
 
@@ -169,7 +177,10 @@ func (b *Builder) printTable(dst *build.Writer, typ *ast.DataType, u *ui) {
 	//i := 0
 	err := build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
 
-		table := b.getUI(field.Tags)
+		table, err := b.getUI(field.Tags)
+		if err != nil {
+			return err
+		}
 		if nil == table || 0 == len(table.table) {
 			return nil
 		}
@@ -219,7 +230,7 @@ func (b *Builder) printTable(dst *build.Writer, typ *ast.DataType, u *ui) {
 		return nil
 	})
 	if err != nil {
-		return
+		return err
 	}
 
 	dst.Tab(3).Code("}\n")
@@ -242,7 +253,7 @@ func (b *Builder) printTable(dst *build.Writer, typ *ast.DataType, u *ui) {
 	dst.Code("\t\t};\n")
 	dst.Code("\t}\n")
 	dst.Code("});\n\n")
-
+	return nil
 }
 
 func (b *Builder) printToString(dst *build.Writer, name string, expr ast.Expr, empty bool, digit int, format string, val string) {
@@ -399,7 +410,7 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 	}
 }
 
-func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
+func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) error {
 	name := build.StringToHumpName(typ.Name.Name)
 	lang := dst.GetLang(name)
 
@@ -422,7 +433,10 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 	//i := 0
 	err := build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
 
-		form := b.getUI(field.Tags)
+		form, err := b.getUI(field.Tags)
+		if err != nil {
+			return err
+		}
 		if nil == form || 0 == len(form.form) {
 			return nil
 		}
@@ -634,7 +648,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 		return nil
 	})
 	if err != nil {
-		return
+		return err
 	}
 
 	dst.Tab(3).Code("}\n")
@@ -657,6 +671,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 	dst.Code("\t\t};\n")
 	dst.Code("\t}\n")
 	dst.Code("});\n\n")
+	return nil
 }
 
 func (b *Builder) printMenuItem(dst *build.Writer, expr ast.Expr, empty bool, option string) {
-- 
2.43.0


From 8e0d29200eb8b84433ba812b6a4fb07dc254a16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 25/53] fix: a method parameter is bound to the data that was
 found, not to an enum of the same name in another import

---
 pkg/build/server.go | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/pkg/build/server.go b/pkg/build/server.go
index 754975d..a8297ac 100644
--- a/pkg/build/server.go
+++ b/pkg/build/server.go
@@ -102,14 +102,7 @@ func (b *Builder) checkServerItemType(file *ast.File, result *ast.VarType) error
 	if obj := file.Scope.Lookup(ident.Name); nil != obj {
 		switch obj.Decl.(*ast.TypeSpec).Type.(type) {
 		case *ast.DataType:
-			if _, ok := _types[BaseType(ident.Name)]; ok {
-				return nil
-			}
-			obj := b.GetDataType(file, ident.Name)
-			if nil != obj {
-				ident.Obj = obj
-				return nil
-			}
+			ident.Obj = obj
 			return nil
 		}
 	}
@@ -119,14 +112,7 @@ func (b *Builder) checkServerItemType(file *ast.File, result *ast.VarType) error
 			if obj := f.Scope.Lookup(ident.Name); nil != obj {
 				switch obj.Decl.(*ast.TypeSpec).Type.(type) {
 				case *ast.DataType:
-					if _, ok := _types[BaseType(ident.Name)]; ok {
-						return nil
-					}
-					obj := b.GetDataType(file, ident.Name)
-					if nil != obj {
-						ident.Obj = obj
-						return nil
-					}
+					ident.Obj = obj
 					return nil
 				}
 			}
-- 
2.43.0


From 4a5a27936d8b7560c284388f5146deca9b81a557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:51 +0000
Subject: [PATCH 26/53] fix: go client and bound methods use the declared
 parameter name, and bound methods without result return only an error

---
 pkg/golang/server.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index d84fc6d..3771929 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -124,9 +124,14 @@ func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *bu
 	if err != nil {
 		return err
 	}
+	param := build.StringToFirstLower(method.ParamName.Name)
+	none := "nil, "
+	if isSub {
+		none = ""
+	}
 	if nil != verify {
-		dst.Code("\tif err := req.Verify(ctx); err != nil {\n")
-		dst.Code("\t\treturn nil, erro.Wrap(err)\n")
+		dst.Code("\tif err := " + param + ".Verify(ctx); err != nil {\n")
+		dst.Code("\t\treturn " + none + "erro.Wrap(err)\n")
 		dst.Code("\t}\n")
 	}
 	pack := b.getPackage(dst, bind.Server.Name)
@@ -137,12 +142,12 @@ func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *bu
 	}
 	dst.Code(pack)
 	dst.Code("Get").Code(bind.Server.Name.Name).Code("(ctx).").Code(bind.Method.Name.Name).Code("(ctx, &")
-	dst.Code("req.")
+	dst.Code(param + ".")
 	b.printType(dst, bind.Method.Param.Type(), true)
 	dst.Code(")\n")
 
 	dst.Code("\tif err != nil {\n")
-	dst.Code("\t\treturn nil, err\n")
+	dst.Code("\t\treturn " + none + "err\n")
 	dst.Code("\t}\n")
 
 	dst.Code("\treturn ")
@@ -208,7 +213,7 @@ func (b *Builder) printClient(dst *build.Writer, typ *ast.ServerType) {
 		} else {
 			dst.Code("\tret")
 		}
-		dst.Code(", err := r.client.Invoke(ctx, req, \"" + name + "/" + build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\", &rpc.ClientInvoke{\n")
+		dst.Code(", err := r.client.Invoke(ctx, " + build.StringToFirstLower(method.ParamName.Name) + ", \"" + name + "/" + build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\", &rpc.ClientInvoke{\n")
 		if !isMethod {
 			dst.Code("\t\tToData: func(buf []byte) (hbuf.Data, error) {\n")
 			dst.Code("\t\t\tvar req ")
-- 
2.43.0


From 4f7dff4fe23aca30d301dfcb9c47b63794b8ff36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:20 +0000
Subject: [PATCH 27/53] fix: a method can be bound to a server of its own file,
 not only of an imported one

---
 pkg/golang/verify.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index cec26bb..3bd9f35 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -39,6 +39,8 @@ func (b *Builder) GetDataType(file *ast.File, name string) *ast.Object {
 				return obj
 			case *ast.EnumType:
 				return obj
+			case *ast.ServerType:
+				return obj
 			}
 		}
 	}
-- 
2.43.0


From de77837bfe8ed0e3f03d42b2356bee5973c72221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:30 +0000
Subject: [PATCH 28/53] fix: types are referred to by the name under which the
 generated code declares them

---
 pkg/dart/dart.go             | 2 +-
 pkg/dart/ui.go               | 2 +-
 pkg/golang/data.go           | 2 +-
 pkg/golang/gloang.go         | 2 +-
 pkg/golang/server.go         | 2 +-
 pkg/java/java.go             | 2 +-
 pkg/typescript/typescript.go | 6 +++---
 pkg/typescript/ui.go         | 2 +-
 8 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index aa95a5b..6c5549b 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -230,7 +230,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool) {
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			b.getPackage(dst, expr, "")
-			dst.Code(expr.(*ast.Ident).Name)
+			dst.Code(build.StringToHumpName(t.Name))
 		} else {
 			if build.Decimal == build.BaseType((expr.(*ast.Ident).Name)) {
 				dst.Import("package:decimal/decimal.dart", "")
diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index ca28658..85bba46 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -414,7 +414,7 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 	switch expr.(type) {
 	case *ast.EnumType:
 		t := expr.(*ast.EnumType)
-		dst.Code(t.Name.Name + ".nameOf(" + name + "!)")
+		dst.Code(build.StringToHumpName(t.Name.Name) + ".nameOf(" + name + "!)")
 	case *ast.Ident:
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
diff --git a/pkg/golang/data.go b/pkg/golang/data.go
index ce3cf51..9070aa2 100644
--- a/pkg/golang/data.go
+++ b/pkg/golang/data.go
@@ -117,7 +117,7 @@ func (b *Builder) printDefault(dst *build.Writer, expr ast.Expr) {
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			pack := b.getPackage(dst, expr)
-			dst.Code(pack + (expr.(*ast.Ident)).Name)
+			dst.Code(pack + build.StringToHumpName(t.Name))
 			if t.Obj.Kind == ast.Enum {
 				dst.Code("(0)")
 			} else {
diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index c163347..5abab02 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -241,7 +241,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, b2 bool) {
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			pack := b.getPackage(dst, expr)
-			dst.Code(pack + (expr.(*ast.Ident)).Name)
+			dst.Code(pack + build.StringToHumpName(t.Name))
 		} else {
 			if build.Date == build.BaseType((expr.(*ast.Ident)).Name) {
 				dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/hbuf", "")
diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 3771929..58826e6 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -141,7 +141,7 @@ func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *bu
 		dst.Code("\terr := ")
 	}
 	dst.Code(pack)
-	dst.Code("Get").Code(bind.Server.Name.Name).Code("(ctx).").Code(bind.Method.Name.Name).Code("(ctx, &")
+	dst.Code("Get").Code(build.StringToHumpName(bind.Server.Name.Name)).Code("(ctx).").Code(build.StringToHumpName(bind.Method.Name.Name)).Code("(ctx, &")
 	dst.Code(param + ".")
 	b.printType(dst, bind.Method.Param.Type(), true)
 	dst.Code(")\n")
diff --git a/pkg/java/java.go b/pkg/java/java.go
index 36e10c6..5911e17 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -226,7 +226,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool) {
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			b.getPackage(dst, expr, "")
-			dst.Code(expr.(*ast.Ident).Name)
+			dst.Code(build.StringToHumpName(t.Name))
 		} else {
 			if build.Decimal == build.BaseType((expr.(*ast.Ident).Name)) {
 				dst.Import("java.math.BigDecimal", "")
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index 4e049e5..81eb705 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -253,7 +253,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool, isR
 				pkg := b.getPackage(dst, expr, "")
 				dst.Code(pkg)
 				dst.Code(".")
-				dst.Code(expr.(*ast.Ident).Name)
+				dst.Code(build.StringToHumpName(t.Name))
 			}
 		} else {
 			if isRecordKey {
@@ -340,14 +340,14 @@ func (b *Builder) printDefault(dst *build.Writer, expr ast.Expr, notEmpty bool)
 				pkg := b.getPackage(dst, expr, "")
 				dst.Code(pkg)
 				dst.Code(".")
-				dst.Code(expr.(*ast.Ident).Name)
+				dst.Code(build.StringToHumpName(t.Name))
 				dst.Code(".valueOf(0)")
 			} else {
 				dst.Code("new ")
 				pkg := b.getPackage(dst, expr, "")
 				dst.Code(pkg)
 				dst.Code(".")
-				dst.Code(expr.(*ast.Ident).Name)
+				dst.Code(build.StringToHumpName(t.Name))
 				dst.Code("()")
 			}
 		} else {
diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index 613fdd0..bbb309c 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -326,7 +326,7 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 			dst.Code("(").Code(name).Code(" == null || ").Code(name).Code(".length == 0)").Code(" ? null : ")
 		}
 		p := b.getPackage(dst, t.Name, "")
-		dst.Code("(").Code(p).Code(".").Code(t.Name.Name).Code(".nameOf(").Code(name).Code("))")
+		dst.Code("(").Code(p).Code(".").Code(build.StringToHumpName(t.Name.Name)).Code(".nameOf(").Code(name).Code("))")
 	case *ast.Ident:
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
-- 
2.43.0


From b5c21e111c9f2a6173ed255567571a572f199693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:19 +0000
Subject: [PATCH 29/53] fix: java enums compare with their own class, and names
 by content

---
 pkg/java/enum.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/java/enum.go b/pkg/java/enum.go
index 09a1027..f8a7561 100644
--- a/pkg/java/enum.go
+++ b/pkg/java/enum.go
@@ -32,7 +32,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	dst.Code("\t\tpublic boolean equals(Object o) {\n")
 	dst.Code("\t\t\tif (this == o) return true;\n")
 	dst.Code("\t\t\tif (o == null || getClass() != o.getClass()) return false;\n")
-	dst.Code("\t\t\tTest test = (Test) o;\n")
+	dst.Code("\t\t\t" + enumName + " test = (" + enumName + ") o;\n")
 	dst.Code("\t\t\treturn value == test.value;\n")
 	dst.Code("\t\t}\n\n")
 
@@ -47,16 +47,16 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	dst.Code("\t\t\t\t\treturn item;\n")
 	dst.Code("\t\t\t\t}\n")
 	dst.Code("\t\t\t}\n")
-	dst.Code("\t\t\tthrow new RuntimeException(\"Get Test by value error, value=\" + value);\n")
+	dst.Code("\t\t\tthrow new RuntimeException(\"Get " + enumName + " by value error, value=\" + value);\n")
 	dst.Code("\t\t}\n\n")
 
 	dst.Code("\t\tpublic static " + enumName + " nameOf(String name) {\n")
 	dst.Code("\t\t\tfor (" + enumName + " item : values) {\n")
-	dst.Code("\t\t\t\tif (item.name == name) {\n")
+	dst.Code("\t\t\t\tif (item.name.equals(name)) {\n")
 	dst.Code("\t\t\t\t\treturn item;\n")
 	dst.Code("\t\t\t\t}\n")
 	dst.Code("\t\t\t}\n")
-	dst.Code("\t\t\tthrow new RuntimeException(\"Get Test by name error, name=\" + name);\n")
+	dst.Code("\t\t\tthrow new RuntimeException(\"Get " + enumName + " by name error, name=\" + name);\n")
 	dst.Code("\t\t}\n\n")
 
 	for _, item := range typ.Items {
-- 
2.43.0


From cc0fe8d9a1470cf4db8b700e63eacd4780527465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:13 +0000
Subject: [PATCH 30/53] fix: the java annotation of overriding members is
 @Override

---
 pkg/java/data.go   | 4 ++--
 pkg/java/server.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/java/data.go b/pkg/java/data.go
index 2ca61f9..2cdd76e 100644
--- a/pkg/java/data.go
+++ b/pkg/java/data.go
@@ -27,7 +27,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 		}
 		isSuper := build.CheckSuperField(field.Name.Name, typ)
 		if isSuper {
-			dst.Code("\t@override\n")
+			dst.Code("\t\t@Override\n")
 		}
 		dst.Code("\t\t")
 		b.printType(dst, field.Type, false)
@@ -38,7 +38,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 			dst.Code("\t/// Set " + field.Doc.Text())
 		}
 		if isSuper {
-			dst.Code("\t@override\n")
+			dst.Code("\t\t@Override\n")
 		}
 		dst.Code("\t\tvoid set")
 		dst.Code(build.StringToHumpName(field.Name.Name) + "(")
diff --git a/pkg/java/server.go b/pkg/java/server.go
index 38627c8..783ac1f 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -31,7 +31,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 			dst.Code("///" + method.Doc.Text())
 		}
 		if build.CheckSuperMethod(method.Name.Name, typ) {
-			dst.Code("\t@override\n")
+			dst.Code("\t\t@Override\n")
 		}
 		dst.Code("\t\tCompletableFuture<")
 		b.printType(dst, method.Result.Type(), false)
-- 
2.43.0


From 5ec1d6bd9fb265ab299e937600e49a65b803c712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:54 +0000
Subject: [PATCH 31/53] fix: dart and java generate valid code for methods
 without result

---
 pkg/dart/server.go | 36 ++++++++++++++++++++++++++++--------
 pkg/java/server.go | 30 +++++++++++++++++++++++-------
 2 files changed, 51 insertions(+), 15 deletions(-)

diff --git a/pkg/dart/server.go b/pkg/dart/server.go
index 87cba6a..e859be5 100644
--- a/pkg/dart/server.go
+++ b/pkg/dart/server.go
@@ -33,8 +33,14 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 		if build.CheckSuperMethod(method.Name.Name, typ) {
 			dst.Code("  @override\n")
 		}
+		isVoid := method.Result.Type().(*ast.Ident).Name == "void"
+
 		dst.Code("  Future<")
-		b.printType(dst, method.Result.Type(), false)
+		if isVoid {
+			dst.Code("void")
+		} else {
+			b.printType(dst, method.Result.Type(), false)
+		}
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
@@ -59,8 +65,14 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 
 	_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
 		dst.Code("  @override\n")
+		isVoid := method.Result.Type().(*ast.Ident).Name == "void"
+
 		dst.Code("  Future<")
-		b.printType(dst, method.Result.Type(), false)
+		if isVoid {
+			dst.Code("void")
+		} else {
+			b.printType(dst, method.Result.Type(), false)
+		}
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
@@ -68,7 +80,11 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code(", [Context? ctx]){\n")
 
 		dst.Code("    return invoke<")
-		b.printType(dst, method.Result.Type(), false)
+		if isVoid {
+			dst.Code("void")
+		} else {
+			b.printType(dst, method.Result.Type(), false)
+		}
 		dst.Code(">(\"")
 		dst.Code(build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
@@ -76,11 +92,15 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("0 << 32 | " + method.Id.Value)
 		dst.Code(", ")
 		dst.Code(build.StringToFirstLower(method.ParamName.Name))
-		dst.Code(", ")
-		b.printType(dst, method.Result.Type(), false)
-		dst.Code(".fromMap, ")
-		b.printType(dst, method.Result.Type(), false)
-		dst.Code(".fromData);\n")
+		if isVoid {
+			dst.Code(", (map) {}, (data) {});\n")
+		} else {
+			dst.Code(", ")
+			b.printType(dst, method.Result.Type(), false)
+			dst.Code(".fromMap, ")
+			b.printType(dst, method.Result.Type(), false)
+			dst.Code(".fromData);\n")
+		}
 
 		dst.Code("  }\n\n")
 		return nil
diff --git a/pkg/java/server.go b/pkg/java/server.go
index 783ac1f..998d48e 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -33,8 +33,14 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 		if build.CheckSuperMethod(method.Name.Name, typ) {
 			dst.Code("\t\t@Override\n")
 		}
+		isVoid := method.Result.Type().(*ast.Ident).Name == "void"
+
 		dst.Code("\t\tCompletableFuture<")
-		b.printType(dst, method.Result.Type(), false)
+		if isVoid {
+			dst.Code("Void")
+		} else {
+			b.printType(dst, method.Result.Type(), false)
+		}
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
@@ -65,8 +71,14 @@ func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 
 	_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
 		dst.Code("\t\t@Override\n")
+		isVoid := method.Result.Type().(*ast.Ident).Name == "void"
+
 		dst.Code("\t\tpublic CompletableFuture<")
-		b.printType(dst, method.Result.Type(), false)
+		if isVoid {
+			dst.Code("Void")
+		} else {
+			b.printType(dst, method.Result.Type(), false)
+		}
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
@@ -80,11 +92,15 @@ func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("0 << 32 | " + method.Id.Value)
 		dst.Code(", ")
 		dst.Code(build.StringToFirstLower(method.ParamName.Name))
-		dst.Code(", (data) -> Data.formJson.invoke(new String(data), ")
-		b.printType(dst, method.Result.Type(), false)
-		dst.Code("Impl.class), (data)-> new ")
-		b.printType(dst, method.Result.Type(), false)
-		dst.Code("Impl().formData(data));\n")
+		if isVoid {
+			dst.Code(", (data) -> null, (data) -> null);\n")
+		} else {
+			dst.Code(", (data) -> Data.formJson.invoke(new String(data), ")
+			b.printType(dst, method.Result.Type(), false)
+			dst.Code("Impl.class), (data)-> new ")
+			b.printType(dst, method.Result.Type(), false)
+			dst.Code("Impl().formData(data));\n")
+		}
 
 		dst.Code("\t\t}\n\n")
 		return nil
-- 
2.43.0


From 18a6a559507786a7613144cf45d42f5148f82201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:43 +0000
Subject: [PATCH 32/53] fix: generated SELECTs name a column as INSERT and
 UPDATE do

---
 pkg/golang/database.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index b4e1c53..89d751c 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -271,14 +271,14 @@ func (b *Builder) getItemAndValue(fields []*build.DBField, key string) (strings.
 	for _, field := range fields {
 		get := ""
 		if 0 < len(field.Dbs[0].Get) {
-			get = strings.ReplaceAll(field.Dbs[0].Get, "?", build.StringToUnderlineName(field.Dbs[0].Name))
+			get = strings.ReplaceAll(field.Dbs[0].Get, "?", field.Dbs[0].Name)
 		} else if "self" == key && (field.Dbs[0].DefaultWhere ||
 			0 == len(field.Dbs[0].Where) &&
 				0 == len(field.Dbs[0].Limit) &&
 				0 == len(field.Dbs[0].Group) &&
 				0 == len(field.Dbs[0].Offset) &&
 				0 == len(field.Dbs[0].Order)) {
-			get = build.StringToUnderlineName(field.Dbs[0].Name)
+			get = field.Dbs[0].Name
 		} else {
 			continue
 		}
-- 
2.43.0


From 1136297c970f2e0c03012145551e5adedff07ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:45 +0000
Subject: [PATCH 33/53] fix: the key of a database map may have upper case
 letters

---
 pkg/build/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/build/database.go b/pkg/build/database.go
index 925bb8d..cdc3812 100644
--- a/pkg/build/database.go
+++ b/pkg/build/database.go
@@ -96,7 +96,7 @@ func GetDB(n string, tag []*ast.Tag) []*DB {
 					} else if "list" == item.Name.Name {
 						db.List = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
 					} else if "map" == item.Name.Name {
-						db.Map = strings.ToLower(item.Values[0].Value[1 : len(item.Values[0].Value)-1])
+						db.Map = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
 					} else if "table" == item.Name.Name {
 						db.Table = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
 					} else if "set" == item.Name.Name {
-- 
2.43.0


From 3ffeb77ce7eec437c346af3b75333d4ea2a27ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:46 +0000
Subject: [PATCH 34/53] fix: the key condition names the column of the key

---
 pkg/golang/database.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 89d751c..3c29d4c 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -126,7 +126,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 	if fDbs[0].Del {
 		w := wFields
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
 		if err := b.printDeleteData(dst, dbs[0], w, fType, nil != c); err != nil {
@@ -137,7 +137,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 	if fDbs[0].Remove {
 		w := wFields
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
 		if err := b.printRemoveData(dst, dbs[0], w, fType, nil != c); err != nil {
@@ -174,7 +174,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			f = wFields
 		}
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
 		if err := b.printUpdateData(dst, typ, val, dbs[0], w, f, fType, c); err != nil {
@@ -190,7 +190,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			f = wFields
 		}
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
 		if err := b.printSetData(dst, typ, val, dbs[0], w, f, fType, c); err != nil {
@@ -206,7 +206,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			f = wFields
 		}
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			key.Dbs[0].DefaultWhere = true
 			w = []*build.DBField{key}
 		}
-- 
2.43.0


From ebe0f334a7d3955b4099b6637b1c6da6d07c8fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:48 +0000
Subject: [PATCH 35/53] fix: a data without database fields is reported instead
 of crashing the go generator

---
 pkg/golang/database.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 3c29d4c..5fb22bd 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -123,6 +123,10 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		}
 	}
 
+	if typ == fType && nil == key && (fDbs[0].Del || fDbs[0].Remove || 0 < len(fDbs[0].Update) || 0 < len(fDbs[0].Set) || 0 < len(fDbs[0].Get)) {
+		return build.ErrorToFileError(build.NewError(typ.Name.Pos(), "No database field: "+typ.Name.Name), b.fSet)
+	}
+
 	if fDbs[0].Del {
 		w := wFields
 		if typ == fType {
-- 
2.43.0


From 12043af35c120abe8bd8454e1b7de53f15f28a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:49 +0000
Subject: [PATCH 36/53] fix: generated code that uses the cache package imports
 it

---
 pkg/golang/database.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 5fb22bd..9b3a31c 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -650,6 +650,7 @@ func (b *Builder) printCountData(dst *build.Writer, typ *ast.DataType, db *build
 
 	dst.Code("\tvar count int64\n")
 	if nil != c {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\tc, key, _ := cache.DbGet(ctx, \"\", tableName, s, &count)\n")
 		dst.Code("\tif c != nil {\n")
 		dst.Code("\t\treturn *c, nil\n")
@@ -693,6 +694,7 @@ func (b *Builder) printDeleteData(dst *build.Writer, db *build.DB, wFields []*bu
 	dst.Code("func (g " + fName + ") DbDel(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if isCache {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -725,6 +727,7 @@ func (b *Builder) printRemoveData(dst *build.Writer, db *build.DB, wFields []*bu
 	dst.Code("func (g " + fName + ") DbRemove(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if isCache {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -755,6 +758,7 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 	dst.Code("func (g " + fName + ") DbInsert(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if nil != c {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -784,6 +788,7 @@ func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, db *
 	dst.Code("\t\treturn 0, 0, nil\n")
 	dst.Code("\t}\n")
 	if isCache {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -835,6 +840,7 @@ func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key stri
 	dst.Code("func (g " + fName + ") DbUpdate(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if nil != c {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -874,6 +880,7 @@ func (b *Builder) printSetData(dst *build.Writer, typ *ast.DataType, key string,
 	dst.Code("func (g " + fName + ") DbSet(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if nil != c {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
-- 
2.43.0


From 1851c65546f77e5979553db4716fa176cd4d2c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:10 +0000
Subject: [PATCH 37/53] fix: Go verify of decimals imports the decimal package

---
 pkg/golang/verify.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index 3bd9f35..de9910a 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -183,6 +183,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				case build.Decimal:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
 						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
+						dst.Import("github.com/shopspring/decimal", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
 							dst.Code("decimal.NewFromFloat(" + f.Min + ").GreaterThan(i.Get" + fName + "()) ")
-- 
2.43.0


From 1d68bd2ae07eec25fd433a42f154d59123e60678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:11 +0000
Subject: [PATCH 38/53] fix: Go verify imports rpc only where it returns a
 result

---
 pkg/golang/verify.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index de9910a..92b8980 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -90,8 +90,8 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 			pack := b.getPackage(dst, val.Enum.Name) + build.StringToHumpName(val.Enum.Name.Name) + build.StringToHumpName(val.Item.Name.Name)
 
 			if build.IsNil(field.Type) && 0 == i {
-				dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 				if !f.Null {
+					dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 					dst.Code("\tif nil == i." + fName)
 					if build.GetBaseType(field.Type) == build.String {
 						dst.Code(" || len(i.Get" + fName + "()) == 0")
@@ -199,7 +199,9 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						dst.Code("\t}\n")
 					}
 				case build.String:
-					dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
+					if 0 < len(f.Min) || 0 < len(f.Max) || 0 < len(f.Reg) {
+						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
+					}
 					pack := b.getPackage(dst, val.Enum.Name) + build.StringToHumpName(val.Enum.Name.Name) + build.StringToHumpName(val.Item.Name.Name)
 					if 0 < len(f.Min) || 0 < len(f.Max) {
 						dst.Code("\tif ")
-- 
2.43.0


From b3469de2dfecc8c81ff0f29fec620cbbbdaab725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:12 +0000
Subject: [PATCH 39/53] fix: Go servers import erro only where it is used

---
 pkg/golang/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 58826e6..fcce881 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -80,8 +80,6 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 		}
 		isSub := method.Result.Type().(*ast.Ident).Name == "void"
 
-		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/erro", "")
-
 		dst.Code("func (s *Default" + serverName + ") ")
 		dst.Code(build.StringToHumpName(method.Name.Name))
 		dst.Code("(ctx context.Context, ")
@@ -107,6 +105,7 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 				dst.Code("\treturn nil,")
 			}
 
+			dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/erro", "")
 			dst.Code(" erro.NewError(\"not find server " + build.StringToUnderlineName(typ.Name.Name) + "\")\n")
 		} else {
 			err = b.printBinding(dst, method, bind, isSub)
@@ -130,6 +129,7 @@ func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *bu
 		none = ""
 	}
 	if nil != verify {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/erro", "")
 		dst.Code("\tif err := " + param + ".Verify(ctx); err != nil {\n")
 		dst.Code("\t\treturn " + none + "erro.Wrap(err)\n")
 		dst.Code("\t}\n")
-- 
2.43.0


From c38350660ae34d3e8abd58a728fe60deccad1504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:13 +0000
Subject: [PATCH 40/53] fix: database code imports rand and time only for a
 cache time

---
 pkg/golang/database.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 9b3a31c..01c7712 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -540,10 +540,10 @@ func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string
 	dst.Code("\t}\n")
 
 	if nil != c {
-		dst.Import("math/rand", "")
-		dst.Import("time", "")
 		dst.Code("\t_, _ = cache.DbSet(ctx, key, tableName, s, &ret, ")
 		if 0 < c.min {
+			dst.Import("math/rand", "")
+			dst.Import("time", "")
 			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
 		} else {
 			dst.Code("0")
@@ -611,10 +611,10 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 	dst.Code("\t}\n")
 
 	if nil != c {
-		dst.Import("math/rand", "")
-		dst.Import("time", "")
 		dst.Code("\t_, _ = cache.DbSet(ctx, key, tableName, s, &ret, ")
 		if 0 < c.min {
+			dst.Import("math/rand", "")
+			dst.Import("time", "")
 			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
 		} else {
 			dst.Code("0")
@@ -665,10 +665,10 @@ func (b *Builder) printCountData(dst *build.Writer, typ *ast.DataType, db *build
 	dst.Code("\t}\n")
 
 	if nil != c {
-		dst.Import("math/rand", "")
-		dst.Import("time", "")
 		dst.Code("\t_, _ = cache.DbSet(ctx, key, tableName, s, &count, ")
 		if 0 < c.min {
+			dst.Import("math/rand", "")
+			dst.Import("time", "")
 			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
 		} else {
 			dst.Code("0")
@@ -986,10 +986,10 @@ func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string,
 	dst.Code("\t\treturn nil, err\n")
 	dst.Code("\t}\n")
 	if nil != c {
-		dst.Import("math/rand", "")
-		dst.Import("time", "")
 		dst.Code("\t_, _ = cache.DbSet(ctx, key, tableName, s, &val, ")
 		if 0 < c.min {
+			dst.Import("math/rand", "")
+			dst.Import("time", "")
 			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
 		} else {
 			dst.Code("0")
-- 
2.43.0


From 271419c4932e93d156b5bc2dc39c66e4cdd3bdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:13 +0000
Subject: [PATCH 41/53] fix: DbInsert does not import what only a where clause
 needs

---
 pkg/golang/database.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 01c7712..04a8ca5 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -749,11 +749,10 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 	if typ != fType {
 		val = "parent"
 	}
-	w, err := b.getParamWhere(dst, wFields, false, false, false)
+	_, err := b.getParamWhere(dst, wFields, false, false, false)
 	if err != nil {
 		return err
 	}
-	dst.AddImports(w.GetImports())
 
 	dst.Code("func (g " + fName + ") DbInsert(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
-- 
2.43.0


From 52d36fc6f493b876401172fab0f7409c5e8ea644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:14 +0000
Subject: [PATCH 42/53] fix: database code imports context and db only with a
 function that uses them

---
 pkg/golang/database.go | 31 ++++++++++++++++++++++---------
 pkg/golang/gloang.go   |  3 ++-
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 04a8ca5..7d2e0ab 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -44,10 +44,13 @@ func getCache(name string, tags []*ast.Tag) (*cache, error) {
 	return c, nil
 }
 
-func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error {
+// importDatabase imports what every database function names.
+func importDatabase(dst *build.Writer) {
 	dst.Import("context", "")
 	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
+}
 
+func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error {
 	dbs, wFields, key, err := b.getDBField(typ)
 	if nil != err {
 		return err
@@ -251,7 +254,7 @@ func (b *Builder) getDBField(typ *ast.DataType) ([]*build.DB, []*build.DBField,
 
 func (b *Builder) printScanData(dst *build.Writer, typ *ast.DataType, db *build.DB, fields []*build.DBField, key *build.DBField) {
 	name := build.StringToHumpName(typ.Name.Name)
-	item, scan, _ := b.getItemAndValue(fields, "self")
+	item, scan, _ := b.getItemAndValue(dst, fields, "self")
 	dst.Code("func (val *" + name + ") DbScan() (string, []any) {\n")
 	dst.Code("\treturn `" + item.String() + "`,\n")
 	dst.Code("\t\t[]any{" + scan.String() + "}\n")
@@ -267,7 +270,7 @@ func (b *Builder) printNameData(dst *build.Writer, typ *ast.DataType) {
 	dst.Code("\n")
 }
 
-func (b *Builder) getItemAndValue(fields []*build.DBField, key string) (strings.Builder, strings.Builder, strings.Builder) {
+func (b *Builder) getItemAndValue(dst *build.Writer, fields []*build.DBField, key string) (strings.Builder, strings.Builder, strings.Builder) {
 	item := strings.Builder{}
 	scan := strings.Builder{}
 	ques := strings.Builder{}
@@ -294,7 +297,7 @@ func (b *Builder) getItemAndValue(fields []*build.DBField, key string) (strings.
 		}
 		isFist = false
 		item.WriteString(get)
-		scan.WriteString(b.converter(field, "val"))
+		scan.WriteString(b.converter(dst, field, "val"))
 		ques.WriteString("?")
 	}
 	return item, scan, ques
@@ -471,7 +474,7 @@ func (b *Builder) printParam(buf *build.Writer, text string, self *build.DBField
 					buf.Code("utl.ToAnyList(g." + build.StringToHumpName(field.Field.Name.Name) + ")...")
 				} else {
 					buf.Code(".V(")
-					buf.Code(b.converter(field, "g"))
+					buf.Code(b.converter(buf, field, "g"))
 					buf.Code(temp)
 				}
 				buf.Code(")")
@@ -506,7 +509,8 @@ func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string
 	}
 	dst.AddImports(w.GetImports())
 
-	item, scan, _ := b.getItemAndValue(fields, key)
+	item, scan, _ := b.getItemAndValue(dst, fields, key)
+	importDatabase(dst)
 	dst.Code("func (g " + fName + ") DbList(ctx context.Context) ([]" + dName + ", error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	dst.Code("\ts := db.NewSql()\n")
@@ -577,7 +581,8 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 	dst.AddImports(kType.GetImports())
 	dst.AddImports(KName.GetImports())
 
-	item, scan, _ := b.getItemAndValue(fields, key)
+	item, scan, _ := b.getItemAndValue(dst, fields, key)
+	importDatabase(dst)
 	dst.Code("func (g " + fName + ") DbMap(ctx context.Context) (map[" + kType.String() + "]" + dName + ", error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	dst.Code("\ts := db.NewSql()\n")
@@ -637,6 +642,7 @@ func (b *Builder) printCountData(dst *build.Writer, typ *ast.DataType, db *build
 	}
 	dst.AddImports(w.GetImports())
 
+	importDatabase(dst)
 	dst.Code("func (g " + fName + ") DbCount(ctx context.Context) (int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	dst.Code("\ts := db.NewSql()\n")
@@ -691,6 +697,7 @@ func (b *Builder) printDeleteData(dst *build.Writer, db *build.DB, wFields []*bu
 	}
 	dst.AddImports(w.GetImports())
 
+	importDatabase(dst)
 	dst.Code("func (g " + fName + ") DbDel(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if isCache {
@@ -724,6 +731,7 @@ func (b *Builder) printRemoveData(dst *build.Writer, db *build.DB, wFields []*bu
 	}
 	dst.AddImports(w.GetImports())
 
+	importDatabase(dst)
 	dst.Code("func (g " + fName + ") DbRemove(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if isCache {
@@ -754,6 +762,7 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 		return err
 	}
 
+	importDatabase(dst)
 	dst.Code("func (g " + fName + ") DbInsert(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if nil != c {
@@ -781,6 +790,7 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 
 func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, db *build.DB, fields []*build.DBField, key *build.DBField, isCache bool) {
 	name := build.StringToHumpName(typ.Name.Name)
+	importDatabase(dst)
 	dst.Code("func (g " + name + ") DbInsertList(ctx context.Context, val []*" + name + ") (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	dst.Code("\tif nil == val || 0 == len(val) {\n")
@@ -816,7 +826,7 @@ func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, db *
 			dst.Code(", ")
 		}
 		isFist = false
-		dst.Code(b.converter(field, "val"))
+		dst.Code(b.converter(dst, field, "val"))
 	}
 	dst.Code(").T(\")\")\n")
 	dst.Code("\t}\n")
@@ -836,6 +846,7 @@ func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key stri
 	}
 	dst.AddImports(w.GetImports())
 
+	importDatabase(dst)
 	dst.Code("func (g " + fName + ") DbUpdate(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if nil != c {
@@ -876,6 +887,7 @@ func (b *Builder) printSetData(dst *build.Writer, typ *ast.DataType, key string,
 	}
 	dst.AddImports(w.GetImports())
 
+	importDatabase(dst)
 	dst.Code("func (g " + fName + ") DbSet(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if nil != c {
@@ -954,8 +966,9 @@ func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string,
 	}
 	dst.AddImports(w.GetImports())
 
-	item, scan, _ := b.getItemAndValue(fields, key)
+	item, scan, _ := b.getItemAndValue(dst, fields, key)
 
+	importDatabase(dst)
 	dst.Code("func (g " + fName + ") DbGet(ctx context.Context) (*" + dName + ", error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	dst.Code("\ts := db.NewSql()\n")
diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index 5abab02..3205142 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -339,9 +339,10 @@ func (b *Builder) getKey(dst *build.Writer, fields []*build.DBField, name string
 	return param, where, false
 }
 
-func (b *Builder) converter(field *build.DBField, name string) string {
+func (b *Builder) converter(dst *build.Writer, field *build.DBField, name string) string {
 	fName := build.StringToHumpName(field.Field.Name.Name)
 	if "json" == field.Dbs[0].Converter {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
 		return "db.NewJson(&" + name + "." + fName + ")"
 	}
 	return "&" + name + "." + fName
-- 
2.43.0


From 7833ca29c24f9d72907c648de8379e69cbfc785d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:16 +0000
Subject: [PATCH 43/53] fix: Go verify compares a decimal with the declared
 maximum

---
 pkg/golang/verify.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index 92b8980..85d7e1e 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -192,7 +192,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							if 0 < len(f.Min) {
 								dst.Code("|| ")
 							}
-							dst.Code("decimal.NewFromFloat(" + f.Min + ").LessThan(i.Get" + fName + "()) ")
+							dst.Code("decimal.NewFromFloat(" + f.Max + ").LessThan(i.Get" + fName + "()) ")
 						}
 						dst.Code("{\n")
 						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
-- 
2.43.0


From 0b691ccd9559e394ae87b6d512159438bc45ab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:19 +0000
Subject: [PATCH 44/53] fix: Dart and TypeScript verify with the ranges of the
 integer types

---
 pkg/dart/verify.go       | 6 +++---
 pkg/typescript/verify.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index fb72025..32328c4 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -70,7 +70,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				t := build.GetBaseType(field.Type)
 				switch t {
 				case build.Int8:
-					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*", field.Type, "–128", "127")
+					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*", field.Type, "-128", "127")
 				case build.Int16:
 					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*", field.Type, "-32768", "32767")
 				case build.Int32:
@@ -84,9 +84,9 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				case build.Float, build.Double:
 					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*", field.Type, "", "")
 				case build.Int64:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "-9223372036854775808", "9223372036854775808")
+					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "-9223372036854775808", "9223372036854775807")
 				case build.Uint64:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "0", "18446744073709551615615")
+					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "0", "18446744073709551615")
 				case build.Date:
 					dst.Code("\tDateTime? val = DateTime.tryParse(text!);\n")
 					dst.Code("\tif (null == val) {\n")
diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index 655a64b..faf9597 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -67,7 +67,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				t := build.GetBaseType(field.Type)
 				switch t {
 				case build.Int8:
-					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*", field.Type, "–128", "127")
+					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*", field.Type, "-128", "127")
 				case build.Int16:
 					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*", field.Type, "-32768", "32767")
 				case build.Int32:
@@ -81,9 +81,9 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				case build.Float, build.Double:
 					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*", field.Type, "", "")
 				case build.Int64:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "-9223372036854775808", "9223372036854775808")
+					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "-9223372036854775808", "9223372036854775807")
 				case build.Uint64:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "0", "18446744073709551615615")
+					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "0", "18446744073709551615")
 				case build.Date:
 					dst.Code("\tDateTime? val = DateTime.tryParse(value!);\n")
 					dst.Code("\tif (null == val) {\n")
-- 
2.43.0


From e97bf322deb6c72b613549a345062045d8c255d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:40 +0000
Subject: [PATCH 45/53] fix: Dart and TypeScript verify whole numbers and
 single digits as such

---
 pkg/dart/verify.go       | 20 ++++++++++----------
 pkg/typescript/verify.go | 20 ++++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index 32328c4..d5572be 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -70,23 +70,23 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				t := build.GetBaseType(field.Type)
 				switch t {
 				case build.Int8:
-					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*", field.Type, "-128", "127")
+					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", field.Type, "-128", "127")
 				case build.Int16:
-					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*", field.Type, "-32768", "32767")
+					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", field.Type, "-32768", "32767")
 				case build.Int32:
-					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*", field.Type, "-2147483648", "2147483647")
+					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", field.Type, "-2147483648", "2147483647")
 				case build.Uint8:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "0", "255")
+					b.verifyNum(dst, val, f, "^[0-9]+\\$", field.Type, "0", "255")
 				case build.Uint16:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "0", "65535")
+					b.verifyNum(dst, val, f, "^[0-9]+\\$", field.Type, "0", "65535")
 				case build.Uint32:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "0", "4294967295")
+					b.verifyNum(dst, val, f, "^[0-9]+\\$", field.Type, "0", "4294967295")
 				case build.Float, build.Double:
-					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*", field.Type, "", "")
+					b.verifyNum(dst, val, f, "^-?[0-9]+(\\\\.[0-9]+)?\\$", field.Type, "", "")
 				case build.Int64:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "-9223372036854775808", "9223372036854775807")
+					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", field.Type, "-9223372036854775808", "9223372036854775807")
 				case build.Uint64:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "0", "18446744073709551615")
+					b.verifyNum(dst, val, f, "^[0-9]+\\$", field.Type, "0", "18446744073709551615")
 				case build.Date:
 					dst.Code("\tDateTime? val = DateTime.tryParse(text!);\n")
 					dst.Code("\tif (null == val) {\n")
@@ -122,7 +122,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						dst.Code("\t}\n")
 					}
 					if i == len(verify.GetFormat())-1 {
-						dst.Code("\tif (!RegExp(\"-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*\").hasMatch(text")
+						dst.Code("\tif (!RegExp(\"^-?[0-9]+(\\\\.[0-9]+)?\\$\").hasMatch(text")
 						if build.IsNil(field.Type) {
 							dst.Code("!")
 						}
diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index faf9597..6b682eb 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -67,23 +67,23 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				t := build.GetBaseType(field.Type)
 				switch t {
 				case build.Int8:
-					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*", field.Type, "-128", "127")
+					b.verifyNum(dst, pName, val, f, "^-?[0-9]+$", field.Type, "-128", "127")
 				case build.Int16:
-					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*", field.Type, "-32768", "32767")
+					b.verifyNum(dst, pName, val, f, "^-?[0-9]+$", field.Type, "-32768", "32767")
 				case build.Int32:
-					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*", field.Type, "-2147483648", "2147483647")
+					b.verifyNum(dst, pName, val, f, "^-?[0-9]+$", field.Type, "-2147483648", "2147483647")
 				case build.Uint8:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "0", "255")
+					b.verifyNum(dst, pName, val, f, "^[0-9]+$", field.Type, "0", "255")
 				case build.Uint16:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "0", "65535")
+					b.verifyNum(dst, pName, val, f, "^[0-9]+$", field.Type, "0", "65535")
 				case build.Uint32:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "0", "4294967295")
+					b.verifyNum(dst, pName, val, f, "^[0-9]+$", field.Type, "0", "4294967295")
 				case build.Float, build.Double:
-					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*", field.Type, "", "")
+					b.verifyNum(dst, pName, val, f, "^-?[0-9]+(\\\\.[0-9]+)?$", field.Type, "", "")
 				case build.Int64:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "-9223372036854775808", "9223372036854775807")
+					b.verifyNum(dst, pName, val, f, "^-?[0-9]+$", field.Type, "-9223372036854775808", "9223372036854775807")
 				case build.Uint64:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "0", "18446744073709551615")
+					b.verifyNum(dst, pName, val, f, "^[0-9]+$", field.Type, "0", "18446744073709551615")
 				case build.Date:
 					dst.Code("\tDateTime? val = DateTime.tryParse(value!);\n")
 					dst.Code("\tif (null == val) {\n")
@@ -120,7 +120,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						dst.Code("\t}\n")
 					}
 					if i == len(verify.GetFormat())-1 {
-						dst.Code("\tif (!new RegExp(\"-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*\").test(value")
+						dst.Code("\tif (!new RegExp(\"^-?[0-9]+(\\\\.[0-9]+)?$\").test(value")
 						if build.IsNil(field.Type) {
 							dst.Code("!")
 						}
-- 
2.43.0


From 21e4dccc93271f819959eb60889bf4d33caf0703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:42 +0000
Subject: [PATCH 46/53] fix: Dart verify compares numbers and decimals with
 their limits

---
 pkg/dart/verify.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index d5572be..9e82c95 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -138,13 +138,13 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						if 0 < len(f.Min) || 0 < len(f.Max) {
 							dst.Code("\tif (")
 							if 0 < len(f.Min) {
-								dst.Code("1 == val.compareTo(Decimal.fromInt(" + f.Min + "))")
+								dst.Code("Decimal.parse(\"" + f.Min + "\") > val")
 							}
 							if 0 < len(f.Max) {
 								if 0 < len(f.Min) {
 									dst.Code(" || ")
 								}
-								dst.Code("-1 == val.compareTo(Decimal.fromInt(" + f.Max + "))")
+								dst.Code("Decimal.parse(\"" + f.Max + "\") < val")
 							}
 							dst.Code(") {\n")
 							dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
@@ -209,13 +209,13 @@ func (b *Builder) verifyNum(dst *build.Writer, val *build.VerifyEnum, f *build.F
 	if 0 < len(f.Min) || 0 < len(f.Max) {
 		dst.Code("\tif (")
 		if 0 < len(f.Min) {
-			dst.Code("Decimal.tryParse(" + f.Min + ") > val")
+			dst.Code("Decimal.parse(\"" + f.Min + "\") > val")
 		}
 		if 0 < len(f.Max) {
 			if 0 < len(f.Min) {
 				dst.Code(" || ")
 			}
-			dst.Code("Decimal.tryParse(" + f.Max + ") < val")
+			dst.Code("Decimal.parse(\"" + f.Max + "\") < val")
 		}
 		dst.Code(") {\n")
 		dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
-- 
2.43.0


From 09ca6c2f5866da86c290ae22a9144e850b0f58fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:45 +0000
Subject: [PATCH 47/53] fix: TypeScript verify keeps all digits of a limit

---
 pkg/typescript/verify.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index 6b682eb..8ea9f56 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -206,13 +206,13 @@ func (b *Builder) verifyNum(dst *build.Writer, pName string, val *build.VerifyEn
 	if 0 < len(f.Min) || 0 < len(f.Max) {
 		dst.Tab(2).Code("if (")
 		if 0 < len(f.Min) {
-			dst.Code("new d.Decimal(").Code(f.Min).Code(").greaterThan(val)")
+			dst.Code("new d.Decimal(\"").Code(f.Min).Code("\").greaterThan(val)")
 		}
 		if 0 < len(f.Max) {
 			if 0 < len(f.Min) {
 				dst.Code(" || ")
 			}
-			dst.Code("new d.Decimal(").Code(f.Max).Code(").lessThan(val)")
+			dst.Code("new d.Decimal(\"").Code(f.Max).Code("\").lessThan(val)")
 		}
 		dst.Code(") {\n")
 		b.printVerifyError(dst, pName, val)
-- 
2.43.0


From 7f3212b0ec904d2b53c4b56684990b3c973cc97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:23 +0000
Subject: [PATCH 48/53] fix: TypeScript verify of dates is TypeScript

---
 pkg/typescript/verify.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index 8ea9f56..c030cda 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -85,10 +85,9 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				case build.Uint64:
 					b.verifyNum(dst, pName, val, f, "^[0-9]+$", field.Type, "0", "18446744073709551615")
 				case build.Date:
-					dst.Code("\tDateTime? val = DateTime.tryParse(value!);\n")
-					dst.Code("\tif (null == val) {\n")
+					dst.Tab(1).Code("if (isNaN(Date.parse(value!))) {\n")
 					b.printVerifyError(dst, pName, val)
-					dst.Code("\t}\n")
+					dst.Tab(1).Code("}\n")
 					if 0 < len(f.Min) || 0 < len(f.Max) {
 						dst.Code("\tif (")
 						if 0 < len(f.Min) {
@@ -96,7 +95,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							if err != nil {
 								return err
 							}
-							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " > val.millisecondsSinceEpoch")
+							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " > Date.parse(value!)")
 						}
 						if 0 < len(f.Max) {
 							if 0 < len(f.Min) {
@@ -106,11 +105,10 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							if err != nil {
 								return err
 							}
-							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " < val.millisecondsSinceEpoch")
+							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " < Date.parse(value!)")
 						}
 						dst.Code(") {\n")
 						b.printVerifyError(dst, pName, val)
-						b.printVerifyError(dst, pName, val)
 						dst.Code("\t}\n")
 					}
 				case build.Decimal:
-- 
2.43.0


From 98fbec27e0e91351b78c8c44794d29d380899502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:25 +0000
Subject: [PATCH 49/53] fix: Dart and TypeScript verify a decimal with the
 limits of every format

---
 pkg/dart/verify.go       | 31 +------------------------------
 pkg/typescript/verify.go | 31 +------------------------------
 2 files changed, 2 insertions(+), 60 deletions(-)

diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index 9e82c95..7fbb71f 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -121,36 +121,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
 						dst.Code("\t}\n")
 					}
-					if i == len(verify.GetFormat())-1 {
-						dst.Code("\tif (!RegExp(\"^-?[0-9]+(\\\\.[0-9]+)?\\$\").hasMatch(text")
-						if build.IsNil(field.Type) {
-							dst.Code("!")
-						}
-						dst.Code(")) {\n")
-						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
-						dst.Code("\t}\n")
-
-						dst.Import("package:decimal/decimal.dart", "")
-						dst.Code("\tDecimal? val = Decimal.tryParse(text!);\n")
-						dst.Code("\tif (null == val) {\n")
-						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
-						dst.Code("\t}\n")
-						if 0 < len(f.Min) || 0 < len(f.Max) {
-							dst.Code("\tif (")
-							if 0 < len(f.Min) {
-								dst.Code("Decimal.parse(\"" + f.Min + "\") > val")
-							}
-							if 0 < len(f.Max) {
-								if 0 < len(f.Min) {
-									dst.Code(" || ")
-								}
-								dst.Code("Decimal.parse(\"" + f.Max + "\") < val")
-							}
-							dst.Code(") {\n")
-							dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
-							dst.Code("\t}\n")
-						}
-					}
+					b.verifyNum(dst, val, f, "^-?[0-9]+(\\\\.[0-9]+)?\\$", field.Type, "", "")
 				case build.String:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
 						dst.Code("\tif (")
diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index c030cda..58c32ad 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -117,36 +117,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						b.printVerifyError(dst, pName, val)
 						dst.Code("\t}\n")
 					}
-					if i == len(verify.GetFormat())-1 {
-						dst.Code("\tif (!new RegExp(\"^-?[0-9]+(\\\\.[0-9]+)?$\").test(value")
-						if build.IsNil(field.Type) {
-							dst.Code("!")
-						}
-						dst.Code(")) {\n")
-						b.printVerifyError(dst, pName, val)
-						dst.Code("\t}\n")
-
-						dst.Import("decimal.js", "* as d")
-						dst.Code("\tDecimal? val = Decimal.tryParse(value!);\n")
-						dst.Code("\tif (null == val) {\n")
-						b.printVerifyError(dst, pName, val)
-						dst.Code("\t}\n")
-						if 0 < len(f.Min) || 0 < len(f.Max) {
-							dst.Code("\tif (")
-							if 0 < len(f.Min) {
-								dst.Code("1 == val.compareTo(Decimal.fromInt(" + f.Min + "))")
-							}
-							if 0 < len(f.Max) {
-								if 0 < len(f.Min) {
-									dst.Code(" || ")
-								}
-								dst.Code("-1 == val.compareTo(Decimal.fromInt(" + f.Max + "))")
-							}
-							dst.Code(") {\n")
-							b.printVerifyError(dst, pName, val)
-							dst.Code("\t}\n")
-						}
-					}
+					b.verifyNum(dst, pName, val, f, "^-?[0-9]+(\\\\.[0-9]+)?$", field.Type, "", "")
 				case build.String:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
 						dst.Code("\tif (")
-- 
2.43.0


From 4b40a7ad13dc6a3bf6f427f4c3ece793e383b6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:28 +0000
Subject: [PATCH 50/53] fix: Dart verify with several formats declares no
 variable twice

---
 pkg/dart/verify.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index 7fbb71f..9d76ba4 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -88,8 +88,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				case build.Uint64:
 					b.verifyNum(dst, val, f, "^[0-9]+\\$", field.Type, "0", "18446744073709551615")
 				case build.Date:
-					dst.Code("\tDateTime? val = DateTime.tryParse(text!);\n")
-					dst.Code("\tif (null == val) {\n")
+					dst.Code("\tif (null == DateTime.tryParse(text!)) {\n")
 					dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
 					dst.Code("\t}\n")
 					if 0 < len(f.Min) || 0 < len(f.Max) {
@@ -99,7 +98,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							if err != nil {
 								return err
 							}
-							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " > val.millisecondsSinceEpoch")
+							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " > DateTime.parse(text!).millisecondsSinceEpoch")
 						}
 						if 0 < len(f.Max) {
 							if 0 < len(f.Min) {
@@ -109,7 +108,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 							if err != nil {
 								return err
 							}
-							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " < val.millisecondsSinceEpoch")
+							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " < DateTime.parse(text!).millisecondsSinceEpoch")
 						}
 						dst.Code(") {\n")
 						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
@@ -166,13 +165,12 @@ func (b *Builder) verifyNum(dst *build.Writer, val *build.VerifyEnum, f *build.F
 	dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
 	dst.Code("\t}\n")
 	dst.Import("package:decimal/decimal.dart", "")
-	dst.Code("\tvar val = Decimal.tryParse(text!);\n")
-	dst.Code("\tif (null == val) {\n")
+	dst.Code("\tif (null == Decimal.tryParse(text!)) {\n")
 	dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
 	dst.Code("\t}\n")
 
 	if 0 < len(min) {
-		dst.Code("\tif (val < Decimal.parse(\"" + min + "\") || val > Decimal.parse(\"" + max + "\")) {\n")
+		dst.Code("\tif (Decimal.parse(text!) < Decimal.parse(\"" + min + "\") || Decimal.parse(text!) > Decimal.parse(\"" + max + "\")) {\n")
 		dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
 		dst.Code("\t}\n")
 	}
@@ -180,13 +178,13 @@ func (b *Builder) verifyNum(dst *build.Writer, val *build.VerifyEnum, f *build.F
 	if 0 < len(f.Min) || 0 < len(f.Max) {
 		dst.Code("\tif (")
 		if 0 < len(f.Min) {
-			dst.Code("Decimal.parse(\"" + f.Min + "\") > val")
+			dst.Code("Decimal.parse(\"" + f.Min + "\") > Decimal.parse(text!)")
 		}
 		if 0 < len(f.Max) {
 			if 0 < len(f.Min) {
 				dst.Code(" || ")
 			}
-			dst.Code("Decimal.parse(\"" + f.Max + "\") < val")
+			dst.Code("Decimal.parse(\"" + f.Max + "\") < Decimal.parse(text!)")
 		}
 		dst.Code(") {\n")
 		dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
-- 
2.43.0


From d6dc3fc03f2183f7c48beacd07d6fd59ccb5083a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:42 +0000
Subject: [PATCH 51/53] fix: Dart verify of a value that is not nullable
 compiles

---
 pkg/dart/verify.go | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index 9d76ba4..c53d331 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -70,23 +70,23 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				t := build.GetBaseType(field.Type)
 				switch t {
 				case build.Int8:
-					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", field.Type, "-128", "127")
+					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", "-128", "127")
 				case build.Int16:
-					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", field.Type, "-32768", "32767")
+					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", "-32768", "32767")
 				case build.Int32:
-					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", field.Type, "-2147483648", "2147483647")
+					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", "-2147483648", "2147483647")
 				case build.Uint8:
-					b.verifyNum(dst, val, f, "^[0-9]+\\$", field.Type, "0", "255")
+					b.verifyNum(dst, val, f, "^[0-9]+\\$", "0", "255")
 				case build.Uint16:
-					b.verifyNum(dst, val, f, "^[0-9]+\\$", field.Type, "0", "65535")
+					b.verifyNum(dst, val, f, "^[0-9]+\\$", "0", "65535")
 				case build.Uint32:
-					b.verifyNum(dst, val, f, "^[0-9]+\\$", field.Type, "0", "4294967295")
+					b.verifyNum(dst, val, f, "^[0-9]+\\$", "0", "4294967295")
 				case build.Float, build.Double:
-					b.verifyNum(dst, val, f, "^-?[0-9]+(\\\\.[0-9]+)?\\$", field.Type, "", "")
+					b.verifyNum(dst, val, f, "^-?[0-9]+(\\\\.[0-9]+)?\\$", "", "")
 				case build.Int64:
-					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", field.Type, "-9223372036854775808", "9223372036854775807")
+					b.verifyNum(dst, val, f, "^-?[0-9]+\\$", "-9223372036854775808", "9223372036854775807")
 				case build.Uint64:
-					b.verifyNum(dst, val, f, "^[0-9]+\\$", field.Type, "0", "18446744073709551615")
+					b.verifyNum(dst, val, f, "^[0-9]+\\$", "0", "18446744073709551615")
 				case build.Date:
 					dst.Code("\tif (null == DateTime.tryParse(text!)) {\n")
 					dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
@@ -120,7 +120,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
 						dst.Code("\t}\n")
 					}
-					b.verifyNum(dst, val, f, "^-?[0-9]+(\\\\.[0-9]+)?\\$", field.Type, "", "")
+					b.verifyNum(dst, val, f, "^-?[0-9]+(\\\\.[0-9]+)?\\$", "", "")
 				case build.String:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
 						dst.Code("\tif (")
@@ -155,13 +155,8 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 	return nil
 }
 
-func (b *Builder) verifyNum(dst *build.Writer, val *build.VerifyEnum, f *build.Format, reg string, field ast.Type, min, max string) {
-	dst.Code("\tif (!RegExp(\"" + reg + "\").hasMatch(text")
-	if build.IsNil(field) {
-		dst.Code("!")
-	}
-
-	dst.Code(")) {\n")
+func (b *Builder) verifyNum(dst *build.Writer, val *build.VerifyEnum, f *build.Format, reg string, min, max string) {
+	dst.Code("\tif (!RegExp(\"" + reg + "\").hasMatch(text!)) {\n")
 	dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
 	dst.Code("\t}\n")
 	dst.Import("package:decimal/decimal.dart", "")
-- 
2.43.0


From 943248bcb144c23bd493f00745cbdeefb95400f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:25 +0000
Subject: [PATCH 52/53] fix: Java imports BigInteger for uint64, which it
 declares with it, not for int64

---
 pkg/java/java.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/java/java.go b/pkg/java/java.go
index 5911e17..2ce567d 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -232,7 +232,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool) {
 				dst.Import("java.math.BigDecimal", "")
 			} else if build.Date == build.BaseType((expr.(*ast.Ident).Name)) {
 				dst.Import("java.util.Date", "")
-			} else if build.Int64 == build.BaseType((expr.(*ast.Ident).Name)) {
+			} else if build.Uint64 == build.BaseType((expr.(*ast.Ident).Name)) {
 				dst.Import("java.math.BigInteger", "")
 			}
 			if notEmpty {
-- 
2.43.0


From f0e9171139c3800634964a747eb9ef1e355ca67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:06 +0000
Subject: [PATCH 53/53] fix: an absolute go package stays in the output
 directory when that is the current one

---
 pkg/golang/gloang.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index 3205142..35ee015 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -95,6 +95,7 @@ func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
 	}
 
 	dir, name := filepath.Split(param.GetOut())
+	dir = filepath.Clean(dir)
 	name = strings.TrimSuffix(name, ".hbuf")
 	packs := strings.Split(dst.packages, ".")
 	for _, pack := range packs {
-- 
2.43.0

