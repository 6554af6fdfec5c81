From da232b4de9c7acad0954208e4786aee5bbc3fbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:39 +0000
Subject: [PATCH 01/18] fix: report truncated and malformed schematics as
 errors

Reading past the last line, a short flag field, a label line with too few
words or an empty line made the schematic parser panic. These are errors
now, and empty lines are skipped.
---
 src/schematic.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 86d3170..acec403 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -249,7 +249,7 @@ impl ParseState {
     }
 
     fn here(&self) -> String {
-        (self.v[self.i]).clone()
+        self.v.get(self.i).cloned().unwrap_or_default()
     }
 
     fn next(&mut self) {
@@ -1127,8 +1127,7 @@ impl fmt::Display for Text {
 }
 
 fn char_at(s: &str, p: usize) -> char {
-    let v: Vec<char> = s.chars().collect();
-    v[..][p]
+    s.chars().nth(p).unwrap_or(' ')
 }
 
 
@@ -1279,6 +1278,9 @@ fn parse_component(p: &mut ParseState) -> Result<Component, KicadError> {
     let mut d = Component::default();
     p.next();
     loop {
+        if p.eof() {
+            return str_error("end of file reached in component".to_string());
+        }
         let s = p.here();
         if s == "$EndComp" {
             break;
@@ -1374,6 +1376,9 @@ fn parse_sheet(p: &mut ParseState) -> Result<Sheet, KicadError> {
     let mut s = Sheet::default();
     p.next();
     loop {
+        if p.eof() {
+            return str_error("end of file reached in sheet".to_string());
+        }
         let st = p.here();
         if st == "$EndSheet" {
             break;
@@ -1472,6 +1477,9 @@ fn parse_text(p: &mut ParseState) -> Result<Text, KicadError> {
     let size = i64_from_string(p, &String::from(v[5]))?;
     let mut index = 6;
     let shape = if !t.is_local() {
+        if v.len() < 9 {
+            return str_error(format!("expecting 9 elements in {}", s));
+        }
         index = 7;
         Some(v[6].into())
     } else {
@@ -1553,7 +1561,7 @@ pub fn parse(filename: Option<PathBuf>, s: &str) -> Result<Schematic, KicadError
                     sch.append_text(w)
                 }
                 Some(_) => sch.append_other(p.here()),
-                None => unreachable!(),
+                None => (),
             }
         }
         p.next()
-- 
2.43.0


From a5e600490bd43a84c2e7b1ba49bd619fdd4e71d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:47 +0000
Subject: [PATCH 02/18] fix: reject a schematic that ends before its end marker

A file cut short between two elements was read as a complete, shorter
schematic.
---
 src/schematic.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index acec403..b411293 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -1528,6 +1528,7 @@ pub fn parse(filename: Option<PathBuf>, s: &str) -> Result<Schematic, KicadError
     sch.eelayer = p.here();
     p.next();
     assume_line!(p, "EELAYER END");
+    let mut complete = false;
     while !p.eof() {
         {
             match p.here().split_whitespace().next() {
@@ -1543,7 +1544,7 @@ pub fn parse(filename: Option<PathBuf>, s: &str) -> Result<Schematic, KicadError
                     let d = parse_sheet(p)?;
                     sch.append_sheet(d)
                 }
-                Some("$EndSCHEMATC") => (),
+                Some("$EndSCHEMATC") => complete = true,
                 Some("Wire") => {
                     let w = parse_wire(p)?;
                     sch.append_wire(w)
@@ -1566,6 +1567,9 @@ pub fn parse(filename: Option<PathBuf>, s: &str) -> Result<Schematic, KicadError
         }
         p.next()
     }
+    if !complete {
+        return str_error("end of file reached before $EndSCHEMATC".to_string());
+    }
     Ok(sch)
 }
 
-- 
2.43.0


From ad97a9a5008d041b742912304714a23f39814a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:55 +0000
Subject: [PATCH 03/18] fix: log skipped schematic lines instead of printing
 them

Unknown component and sheet lines were written to standard output, which
mixed them into the output of programs and panicked when standard output
could not be written.
---
 src/schematic.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index b411293..53ab197 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -1292,7 +1292,7 @@ fn parse_component(p: &mut ParseState) -> Result<Component, KicadError> {
             Some("F") => parse_component_f(p, &mut d)?,
             Some("1") | Some("0") => parse_component_rotation(p, &mut d)?,
             Some("AR") => parse_component_ar(p, &mut d)?,
-            _ => println!("skipping unknown component line {}", s),
+            _ => warn!("skipping unknown component line {}", s),
         }
         p.next()
     }
@@ -1389,9 +1389,9 @@ fn parse_sheet(p: &mut ParseState) -> Result<Sheet, KicadError> {
             Some(x) => if x.starts_with('F') {
                 parse_sheet_f(p, &mut s, x)?
             } else {
-                println!("skipping unknown sheet line {}", st)
+                warn!("skipping unknown sheet line {}", st)
             },
-            _ => println!("skipping unknown sheet line {}", st),
+            _ => warn!("skipping unknown sheet line {}", st),
         }
         p.next();
     }
-- 
2.43.0


From fa06181c108abee3e03adc7a56bb52fa8acb1588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:23 +0000
Subject: [PATCH 04/18] fix: load and save components of any unit

The position line of a component starts with its unit. Components with a
unit other than 0 or 1 could not be loaded, and saving always wrote 1.
---
 src/schematic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 53ab197..e9f1e04 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -596,7 +596,7 @@ impl fmt::Display for Component {
         writeln!(
             f,
             "\t{:4} {:4} {:4}",
-            "1",
+            self.u.split_whitespace().nth(1).unwrap_or("1"),
             format!("{}", self.x),
             (format!("{}", self.y))
         )?;
@@ -1290,7 +1290,7 @@ fn parse_component(p: &mut ParseState) -> Result<Component, KicadError> {
             Some("U") => parse_component_u(p, &mut d)?,
             Some("P") => parse_component_p(p, &mut d)?,
             Some("F") => parse_component_f(p, &mut d)?,
-            Some("1") | Some("0") => parse_component_rotation(p, &mut d)?,
+            Some(unit) if i64::from_str(unit).is_ok() => parse_component_rotation(p, &mut d)?,
             Some("AR") => parse_component_ar(p, &mut d)?,
             _ => warn!("skipping unknown component line {}", s),
         }
-- 
2.43.0


From 627d014b5aad06f0026cb77a48546da139947f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:31 +0000
Subject: [PATCH 05/18] fix: end with an error when a sheet contains itself

Listing or searching the components of a sheet hierarchy with a loop
recursed until the stack overflowed. Searching also ignored nested sheets
that could not be read and went on with later sheets.
---
 src/schematic.rs | 55 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 8 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index e9f1e04..2cc7faa 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -4,6 +4,7 @@
 // format: old-style
 
 use std::fmt;
+use std::fs;
 use std::str::FromStr;
 use std::path::{Path, PathBuf};
 use std::collections::HashMap;
@@ -151,6 +152,10 @@ impl Schematic {
 
     /// return all components including from sub-sheets
     pub fn all_components(&self) -> Result<Vec<Component>, KicadError> {
+        self.all_components_below(&self.sheet_path())
+    }
+
+    fn all_components_below(&self, parents: &[PathBuf]) -> Result<Vec<Component>, KicadError> {
         let mut v = vec![];
         for x in &self.elements {
             match *x {
@@ -163,8 +168,9 @@ impl Schematic {
             }
         }
         for sheet in &self.sheets {
+            let path = sheet_path_for_sheet(self, sheet, parents)?;
             let schematic = parse_file_for_sheet(self, sheet)?;
-            let mut v2 = schematic.all_components()?;
+            let mut v2 = schematic.all_components_below(&path)?;
             v.append(&mut v2)
         }
         Ok(v)
@@ -172,10 +178,24 @@ impl Schematic {
 
     /// get a component by reference
     pub fn component_by_reference(&self, reference: &str) -> Result<Component, KicadError> {
+        match self.component_by_reference_below(reference, &self.sheet_path())? {
+            Some(c) => Ok(c),
+            None => str_error(format!(
+                "could not find component {} in schematic",
+                reference
+            )),
+        }
+    }
+
+    fn component_by_reference_below(
+        &self,
+        reference: &str,
+        parents: &[PathBuf],
+    ) -> Result<Option<Component>, KicadError> {
         for x in &self.elements {
             match *x {
                 Element::Component(ref c) => if c.reference == *reference {
-                    return Ok(c.clone());
+                    return Ok(Some(c.clone()));
                 },
                 Element::Wire(_) |
                 Element::Connection(_) |
@@ -185,15 +205,19 @@ impl Schematic {
             }
         }
         for sheet in &self.sheets {
+            let path = sheet_path_for_sheet(self, sheet, parents)?;
             let schematic = parse_file_for_sheet(self, sheet)?;
-            if let Ok(c) = schematic.component_by_reference(reference) {
-                return Ok(c);
+            if let Some(c) = schematic.component_by_reference_below(reference, &path)? {
+                return Ok(Some(c));
             }
         }
-        str_error(format!(
-            "could not find component {} in schematic",
-            reference
-        ))
+        Ok(None)
+    }
+
+    /// the files of a sheet and its parents, for a schematic without parents
+    fn sheet_path(&self) -> Vec<PathBuf> {
+        let f = self.filename.as_ref();
+        f.and_then(|f| fs::canonicalize(f).ok()).into_iter().collect()
     }
 
     /// increment the sheet counter of the schematic
@@ -1604,3 +1628,18 @@ pub fn parse_file_for_sheet(schematic: &Schematic, sheet: &Sheet) -> Result<Sche
     let f = filename_for_sheet(schematic, sheet)?;
     parse_file(&f)
 }
+
+/// the files of a sheet and its parents; it is an error if the sheet is its own parent
+fn sheet_path_for_sheet(
+    schematic: &Schematic,
+    sheet: &Sheet,
+    parents: &[PathBuf],
+) -> Result<Vec<PathBuf>, KicadError> {
+    let f = fs::canonicalize(filename_for_sheet(schematic, sheet)?)?;
+    if parents.contains(&f) {
+        return str_error(format!("sheet {} contains itself", f.display()));
+    }
+    let mut path = parents.to_vec();
+    path.push(f);
+    Ok(path)
+}
-- 
2.43.0


From 88361846d9fa284b0f0b933f9ea6d276f5a3d6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:17 +0000
Subject: [PATCH 06/18] fix: report truncated and malformed symbol libraries as
 errors

Reading past the last line, an empty line or a short flag field made the
parser panic, and symbols with fewer than two fields made printing and
renaming panic.
---
 src/symbol_lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index f815958..5be7ea5 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -295,8 +295,9 @@ impl Symbol {
         } else {
             self.name = name.to_string()
         }
-        let field = &mut self.fields[1];
-        field.value = name.to_string()
+        if let Some(field) = self.fields.get_mut(1) {
+            field.value = name.to_string()
+        }
     }
 
     /// get the list of pins on the symbol
@@ -331,7 +332,7 @@ impl Symbol {
 
 impl fmt::Display for Symbol {
     fn fmt(&self, f: &mut fmt::Formatter) -> result::Result<(), fmt::Error> {
-        writeln!(f, "# {}", &&self.fields[1].value)?;
+        writeln!(f, "# {}", self.fields.get(1).map_or(&self.name, |field| &field.value))?;
         writeln!(f, "#")?;
         writeln!(
             f,
@@ -609,7 +610,7 @@ impl ParseState {
     }
 
     fn here(&self) -> String {
-        (self.v[self.i]).clone()
+        self.v.get(self.i).cloned().unwrap_or_default()
     }
 
     fn next(&mut self) {
@@ -653,8 +654,7 @@ fn bool_from_string(s: &str, t: &'static str, f: &'static str) -> Result<bool, K
 }
 
 fn char_at(s: &str, p: usize) -> char {
-    let v: Vec<char> = s.chars().collect();
-    v[..][p]
+    s.chars().nth(p).unwrap_or(' ')
 }
 
 fn parse_symbol(p: &mut ParseState) -> Result<Symbol, KicadError> {
-- 
2.43.0


From 0c3c05849d4d1b81f81fb36abaec9fb4b0da4113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:18 +0000
Subject: [PATCH 07/18] fix: reject a symbol library that ends before its end
 marker

A file cut short between two symbols was read as a complete, shorter
library.
---
 src/symbol_lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index 5be7ea5..365cf67 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -826,13 +826,13 @@ fn parse(s: &str) -> Result<SymbolLib, KicadError> {
     while !p.eof() {
         // println!("here: {}", &p.here());
         if &p.here() == "#End Library" {
-            break;
+            return Ok(lib);
         }
         let s = parse_symbol(p)?;
         // println!("new symbol: {}", &s);
         lib.symbols.push(s)
     }
-    Ok(lib)
+    str_error("end of file reached before #End Library".to_string())
 }
 
 /// parse a &str to a symbol lib
-- 
2.43.0


From 4e9b8f82e39196ed13baa2545153e7a0739c831c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:19 +0000
Subject: [PATCH 08/18] fix: write bold symbol fields as bold

They were written with a flag that the parser rejects, so a saved library
with a bold field could not be loaded again.
---
 src/symbol_lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index 365cf67..f8dcdba 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -401,7 +401,7 @@ impl fmt::Display for Field {
             self.hjustify,
             self.vjustify,
             if self.italic { "I" } else { "N" },
-            if self.bold { "I" } else { "N" },
+            if self.bold { "B" } else { "N" },
         )?;
         if self.i > 3 {
             write!(f, " \"{}\"", self.name)?
-- 
2.43.0


From 1ab33b4619ef30697549fd524735cfe32a2a082c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:20 +0000
Subject: [PATCH 09/18] fix: keep the footprint filters of a symbol

They were dropped when a library was loaded and saved, and a symbol with
aliases before its filters, as KiCad writes them, could not be loaded.
---
 src/symbol_lib.rs | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index f8dcdba..75b5d15 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -47,6 +47,8 @@ pub struct Symbol {
     pub fields: Vec<Field>,
     /// aliases
     pub aliases: Vec<String>,
+    /// footprint filters
+    pub footprint_filters: Vec<String>,
     /// draw
     pub draw: Vec<Draw>,
 }
@@ -284,6 +286,7 @@ impl Symbol {
             is_power: false,
             fields: vec![],
             aliases: vec![],
+            footprint_filters: vec![],
             draw: vec![],
         }
     }
@@ -357,6 +360,13 @@ impl fmt::Display for Symbol {
             }
             writeln!(f, "")?;
         }
+        if !self.footprint_filters.is_empty() {
+            writeln!(f, "$FPLIST")?;
+            for filter in &self.footprint_filters {
+                writeln!(f, " {}", filter)?;
+            }
+            writeln!(f, "$ENDFPLIST")?;
+        }
         writeln!(f, "DRAW")?;
         for draw in &self.draw {
             writeln!(f, "{}", draw)?
@@ -657,6 +667,21 @@ fn char_at(s: &str, p: usize) -> char {
     s.chars().nth(p).unwrap_or(' ')
 }
 
+// the list can be before or after the aliases
+fn parse_footprint_filters(p: &mut ParseState, s: &mut Symbol) {
+    if &p.here() == "$FPLIST" {
+        p.next();
+        while !p.eof() {
+            if &p.here() == "$ENDFPLIST" {
+                p.next();
+                break;
+            }
+            s.footprint_filters.push(p.here().trim().to_string());
+            p.next()
+        }
+    }
+}
+
 fn parse_symbol(p: &mut ParseState) -> Result<Symbol, KicadError> {
     p.next(); // skip line like # name
     assume_line!(p, "#");
@@ -684,17 +709,7 @@ fn parse_symbol(p: &mut ParseState) -> Result<Symbol, KicadError> {
             break;
         }
     }
-    if &p.here() == "$FPLIST" {
-        p.next();
-        // skip FPLIST for now
-        while !p.eof() {
-            if &p.here() == "$ENDFPLIST" {
-                p.next();
-                break;
-            }
-            p.next()
-        }
-    }
+    parse_footprint_filters(p, &mut s);
     if p.here().starts_with("ALIAS") {
         let v = parse_split_quote_aware(&p.here())?;
         for alias in v.into_iter().skip(1) {
@@ -702,6 +717,7 @@ fn parse_symbol(p: &mut ParseState) -> Result<Symbol, KicadError> {
         }
         p.next();
     }
+    parse_footprint_filters(p, &mut s);
     // TODO draw
     assume_line!(p, "DRAW");
     while !p.eof() {
-- 
2.43.0


From 3737ceeb3205a616590d0708d6ded701826b55ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:21 +0000
Subject: [PATCH 10/18] fix: accept file names that are not valid UTF-8

Reading a symbol library with such a name and printing the result of
identifying such a file panicked.
---
 src/lib.rs        | 2 +-
 src/symbol_lib.rs | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 4c7f9c2..92814a1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -121,7 +121,7 @@ pub enum Expected {
 impl fmt::Display for KicadFile {
     fn fmt(&self, f: &mut fmt::Formatter) -> std::result::Result<(), fmt::Error> {
         match *self {
-            KicadFile::Unknown(ref x) => write!(f, "unknown: {}", x.to_str().unwrap()),
+            KicadFile::Unknown(ref x) => write!(f, "unknown: {}", x.display()),
             KicadFile::Module(_) => write!(f, "module"),
             KicadFile::Schematic(_) => write!(f, "schematic"),
             KicadFile::Layout(_) => write!(f, "layout"),
diff --git a/src/symbol_lib.rs b/src/symbol_lib.rs
index 75b5d15..55dd91a 100644
--- a/src/symbol_lib.rs
+++ b/src/symbol_lib.rs
@@ -858,8 +858,7 @@ pub fn parse_str(s: &str) -> Result<SymbolLib, KicadError> {
 
 /// parse a file to a symbol lib
 pub fn parse_file(filename: &PathBuf) -> Result<SymbolLib, KicadError> {
-    let name = filename.to_str().unwrap();
-    let s = read_file(name)?;
+    let s = read_file(filename)?;
     parse(&s[..])
 }
 
-- 
2.43.0


From c7300a950f17a8bee4f77b3305e656f07665248f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:09 +0000
Subject: [PATCH 11/18] fix: load and save pads with a rect_delta

A pad with both a size and a rect_delta could not be loaded, and saving
wrote the rect_delta after the drill, where KiCad has it before.
---
 src/footprint/de.rs  | 2 +-
 src/footprint/ser.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index 45d7328..406b9a1 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -246,7 +246,7 @@ impl FromSexp for Pad {
         if let Some(at) = i.maybe_t::<At>() {
             pad.at = at;
         }
-        if let Some(xy) = i.maybe_t::<Xy>() {
+        while let Some(xy) = i.maybe_t::<Xy>() {
             if xy.t == XyType::Size {
                 pad.size = xy;
             } else if xy.t == XyType::RectDelta {
diff --git a/src/footprint/ser.rs b/src/footprint/ser.rs
index a986475..bc13b88 100644
--- a/src/footprint/ser.rs
+++ b/src/footprint/ser.rs
@@ -200,12 +200,12 @@ impl IntoSexp for Pad {
         v.push(self.shape.into_sexp());
         v.push(self.at.into_sexp());
         v.push(self.size.into_sexp());
-        if let Some(ref drill) = self.drill {
-            v.push(drill.into_sexp());
-        }
         if let Some(ref rect_delta) = self.rect_delta {
             v.push(rect_delta.into_sexp());
         }
+        if let Some(ref drill) = self.drill {
+            v.push(drill.into_sexp());
+        }
         v.push(self.layers.into_sexp());
         if let Some(ref net) = self.net {
             v.push(net.into_sexp());
-- 
2.43.0


From efbdbba2facc5f4bc7b4db6ef7dba7f723a97a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:10 +0000
Subject: [PATCH 12/18] fix: load pad drills that only have an offset

KiCad writes the offset of a pad without a hole as a drill without a
size, and so does this library, but it could not be loaded.
---
 src/footprint/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index 406b9a1..87739f7 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -184,7 +184,7 @@ impl FromSexp for Drill {
         let mut i = IterAtom::new(s, "drill")?;
         let mut drill = Drill::default();
         drill.shape = i.maybe_literal_s("oval");
-        drill.width = i.f("width")?;
+        drill.width = i.maybe_f().unwrap_or(0.0);
         drill.height = i.maybe_f().unwrap_or(drill.width);
         let offset: Offset = i.maybe_t().unwrap_or(Offset(0.0, 0.0));
         drill.offset_x = offset.0;
-- 
2.43.0


From 2724db9f5ff218aeda4bf52533a6871a8d253216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:31 +0000
Subject: [PATCH 13/18] fix: report an empty list in a footprint or layout as
 an error

It made the parsers panic.
---
 src/footprint/de.rs | 14 +++++++-------
 src/layout/de.rs    | 11 +++++------
 src/lib.rs          |  8 ++++++++
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/footprint/de.rs b/src/footprint/de.rs
index 87739f7..bb80c7a 100644
--- a/src/footprint/de.rs
+++ b/src/footprint/de.rs
@@ -3,7 +3,7 @@
 use Sexp;
 use footprint;
 use footprint::data::*;
-use wrap;
+use {list_name, wrap};
 use symbolic_expressions::iteratom::*;
 use symbolic_expressions::SexpError;
 
@@ -130,7 +130,7 @@ where
 
 impl FromSexp for Xy {
     fn from_sexp(s: &Sexp) -> Result<Xy, SexpError> {
-        let name: &str = &s.list_name()?[..];
+        let name: &str = &list_name(s)?[..];
         let t: Result<XyType, SexpError> = match name {
             "xy" => Ok(XyType::Xy),
             "start" => Ok(XyType::Start),
@@ -195,7 +195,7 @@ impl FromSexp for Drill {
 
 impl FromSexp for Part {
     fn from_sexp(s: &Sexp) -> Result<Part, SexpError> {
-        let name = &(s.list_name()?)[..];
+        let name = &(list_name(s)?)[..];
         match name {
             "thickness" => parse_part_float(s, Part::Thickness),
             "net" => wrap(s, from_sexp, Part::Net),
@@ -385,19 +385,19 @@ impl FromSexp for Model {
 }
 
 fn parse_string_element(s: &Sexp) -> Result<String, SexpError> {
-    let name = s.list_name()?;
+    let name = list_name(s)?;
     let mut i = IterAtom::new(s, name)?;
     Ok(i.s("element")?)
 }
 
 fn parse_float_element(s: &Sexp) -> Result<f64, SexpError> {
-    let name = s.list_name()?;
+    let name = list_name(s)?;
     let mut i = IterAtom::new(s, name)?;
     Ok(i.f("element")?)
 }
 
 fn parse_stamp_element(s: &Sexp) -> Result<i64, SexpError> {
-    let name = s.list_name()?;
+    let name = list_name(s)?;
     let mut i = IterAtom::new(s, name)?;
     let s = i.s("element")?;
     let i = i64::from_str_radix(&s, 16)?;
@@ -412,7 +412,7 @@ impl FromSexp for Element {
                 _ => Err(format!("unknown element in module: {}", s).into()),
             },
             Sexp::List(_) => {
-                let name = s.list_name()?;
+                let name = list_name(s)?;
                 match &name[..] {
                     "solder_mask_margin" => wrap(s, parse_float_element, Element::SolderMaskMargin),
                     "layer" => wrap(s, from_sexp, Element::Layer),
diff --git a/src/layout/de.rs b/src/layout/de.rs
index eaca0e1..766e70b 100644
--- a/src/layout/de.rs
+++ b/src/layout/de.rs
@@ -5,7 +5,7 @@
 
 // from parent
 use footprint;
-use wrap;
+use {list_name, wrap};
 use Sexp;
 use symbolic_expressions::iteratom::*;
 use symbolic_expressions::SexpError;
@@ -190,8 +190,7 @@ impl FromSexp for NetClass {
         let mut diff_pair_width = None;
         let mut nets = vec![];
         for x in i.iter {
-            let list_name = x.list_name()?;
-            let xn = &list_name[..];
+            let xn = &list_name(x)?[..];
             match xn {
                 "add_net" => {
                     let l1 = x.named_value_s("add_net")?;
@@ -205,7 +204,7 @@ impl FromSexp for NetClass {
                 "uvia_drill" => uvia_drill = parse(x, xn)?,
                 "diff_pair_gap" => diff_pair_gap = Some(parse(x, xn)?),
                 "diff_pair_width" => diff_pair_width = Some(parse(x, xn)?),
-                _ => return Err(format!("unknown net_class field {}", list_name).into()),
+                _ => return Err(format!("unknown net_class field {}", xn).into()),
             }
         }
         let net_class = NetClass {
@@ -231,7 +230,7 @@ impl FromSexp for Setup {
         let mut pcbplotparams = vec![];
         let i = IterAtom::new(s, "setup")?;
         for v in i.iter {
-            let n = v.list_name()?;
+            let n = list_name(v)?;
             if n == "pcbplotparams" {
                 let i2 = IterAtom::new(v, "pcbplotparams")?;
                 for y in i2.iter {
@@ -465,7 +464,7 @@ impl FromSexp for Layout {
         let mut layout = Layout::default();
         // TODO: read in order instead of matching on iter
         for e in i.iter {
-            match (e.list_name()?).as_str() {
+            match (list_name(e)?).as_str() {
                 "version" => layout.version = Version::from_sexp(e)?.0,
                 "host" => layout.host = from_sexp(e)?,
                 "general" => layout.general = from_sexp(e)?,
diff --git a/src/lib.rs b/src/lib.rs
index 92814a1..7700b4b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -236,6 +236,14 @@ pub fn read_fp_lib_table(name: &Path) -> Result<fp_lib_table::FpLibTable, KicadE
     }
 }
 
+// the name of a list, which can be empty in a damaged file
+fn list_name(s: &Sexp) -> result::Result<&String, SexpError> {
+    match s.list()?.first() {
+        Some(name) => name.string(),
+        None => Err("unexpected empty list".to_string().into()),
+    }
+}
+
 fn wrap<X, Y, F, G>(s: &Sexp, make: F, wrapper: G) -> result::Result<Y,SexpError>
 where
     F: Fn(&Sexp) -> result::Result<X,SexpError>,
-- 
2.43.0


From 804bea0ef4772132a80a3a968b29628470ac5f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:32 +0000
Subject: [PATCH 14/18] fix: keep layer names with several dots

Only the part before the first dot was kept.
---
 src/footprint/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/footprint/data.rs b/src/footprint/data.rs
index a701e10..bb37b0e 100644
--- a/src/footprint/data.rs
+++ b/src/footprint/data.rs
@@ -950,7 +950,7 @@ impl Layer {
             };
             sp[1]
         } else {
-            sp[0]
+            s
         };
 
         let t = match s_t {
-- 
2.43.0


From b804cad284c240c64da89225ae8e9ad10372f4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:17 +0000
Subject: [PATCH 15/18] fix: expand variables whose name starts with a
 multi-byte character

---
 src/fp_lib_table.rs | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/fp_lib_table.rs b/src/fp_lib_table.rs
index 308b23d..b726c4e 100644
--- a/src/fp_lib_table.rs
+++ b/src/fp_lib_table.rs
@@ -35,11 +35,40 @@ pub struct Lib {
 impl Lib {
     /// return the URI with environment variables substituted
     pub fn get_expanded_uri(&self) -> Result<String, KicadError> {
-        let s = shellexpand::full(&self.uri)?;
+        let uri = brace_variables(&self.uri);
+        let s = shellexpand::full(&uri)?;
         Ok(s.into())
     }
 }
 
+/// put braces around the variables whose name starts with a multi-byte
+/// character, shellexpand panics on those
+fn brace_variables(uri: &str) -> String {
+    let is_name = |c: char| c.is_alphanumeric() || c == '_';
+    let mut s = String::new();
+    let mut rest = uri;
+    while let Some(i) = rest.find('$') {
+        s.push_str(&rest[..i]);
+        rest = &rest[i..];
+        let c = rest[1..].chars().next().unwrap_or(' ');
+        let end = if c == '$' {
+            2
+        } else if is_name(c) {
+            1 + rest[1..].find(|c| !is_name(c)).unwrap_or(rest.len() - 1)
+        } else {
+            1
+        };
+        if is_name(c) && c.len_utf8() > 1 {
+            s.push_str(&format!("${{{}}}", &rest[1..end]));
+        } else {
+            s.push_str(&rest[..end]);
+        }
+        rest = &rest[end..];
+    }
+    s.push_str(rest);
+    s
+}
+
 impl IntoSexp for FpLibTable {
     fn into_sexp(&self) -> Sexp {
         let mut v = Sexp::start("fp_lib_table");
-- 
2.43.0


From 3b6d941c69adcad2e91754a98476b1214be2170e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:27 +0000
Subject: [PATCH 16/18] fix: do not overflow on extreme numbers in a schematic

---
 src/schematic.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/schematic.rs b/src/schematic.rs
index 2cc7faa..00d026d 100644
--- a/src/schematic.rs
+++ b/src/schematic.rs
@@ -222,7 +222,7 @@ impl Schematic {
 
     /// increment the sheet counter of the schematic
     pub fn increment_sheet_count(&mut self) {
-        self.description.sheet_count += 1
+        self.description.sheet_count = self.description.sheet_count.saturating_add(1)
     }
 }
 
@@ -523,7 +523,7 @@ impl Component {
                 i = field.i
             }
         }
-        i + 1
+        i.saturating_add(1)
     }
 
     /// get the component fields as a hashmap
@@ -853,9 +853,9 @@ impl BoundingBox for Sheet {
     fn bounding_box(&self) -> Bound {
         Bound::new_from_i64(
             self.x,
-            self.y - 100,
-            self.x + self.dimx,
-            self.y + self.dimy + 100,
+            self.y.saturating_sub(100),
+            self.x.saturating_add(self.dimx),
+            self.y.saturating_add(self.dimy).saturating_add(100),
         )
     }
 }
-- 
2.43.0


From 705e308f201b99ded4f6e0a007fc293b0a6ef933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:28:31 +0000
Subject: [PATCH 17/18] fix: report deeply nested symbolic expressions as an
 error

---
 src/footprint/mod.rs |  4 ++--
 src/fp_lib_table.rs  |  3 ++-
 src/layout/mod.rs    |  4 ++--
 src/lib.rs           | 33 +++++++++++++++++++++++++++++++++
 4 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/footprint/mod.rs b/src/footprint/mod.rs
index 771a7e6..6db2422 100644
--- a/src/footprint/mod.rs
+++ b/src/footprint/mod.rs
@@ -10,7 +10,7 @@ use std::result;
 use symbolic_expressions;
 use symbolic_expressions::IntoSexp;
 use formatter::KicadFormatter;
-use KicadError;
+use {parse_sexp, KicadError};
 
 // pub use footprint;
 pub use footprint::data::*;
@@ -55,7 +55,7 @@ impl fmt::Display for Layer {
 
 /// parse a &str to a Kicad Module
 pub fn parse(s: &str) -> Result<Module, KicadError> {
-    let t = symbolic_expressions::parser::parse_str(s)?;
+    let t = parse_sexp(s)?;
     let s = symbolic_expressions::from_sexp(&t)?;
     Ok(s)
 }
diff --git a/src/fp_lib_table.rs b/src/fp_lib_table.rs
index b726c4e..4fb87dc 100644
--- a/src/fp_lib_table.rs
+++ b/src/fp_lib_table.rs
@@ -9,6 +9,7 @@ use formatter::KicadFormatter;
 use symbolic_expressions::iteratom::*;
 use shellexpand;
 use error::KicadError;
+use parse_sexp;
 
 /// a fp-lib-table
 #[derive(Debug, Clone)]
@@ -119,7 +120,7 @@ impl FromSexp for Lib {
 
 /// parse a &str to an `FpLibTable`
 pub fn parse(s: &str) -> Result<FpLibTable, SexpError> {
-    let t = symbolic_expressions::parser::parse_str(s)?;
+    let t = parse_sexp(s)?;
     let s = symbolic_expressions::from_sexp(&t)?;
     Ok(s)
 }
diff --git a/src/layout/mod.rs b/src/layout/mod.rs
index f407554..ee1c7da 100644
--- a/src/layout/mod.rs
+++ b/src/layout/mod.rs
@@ -10,7 +10,7 @@ use formatter::KicadFormatter;
 
 pub use layout::data::*;
 
-use {Adjust, Bound, BoundingBox, KicadError};
+use {parse_sexp, Adjust, Bound, BoundingBox, KicadError};
 
 /// convert a Kicad layout to a String
 pub fn layout_to_string(layout: &Layout, indent_level: i64) -> Result<String, KicadError> {
@@ -23,7 +23,7 @@ pub fn layout_to_string(layout: &Layout, indent_level: i64) -> Result<String, Ki
 
 /// parse a &str to a Kicad layout
 pub fn parse(s: &str) -> Result<Layout, KicadError> {
-    let x = match symbolic_expressions::parser::parse_str(s) {
+    let x = match parse_sexp(s) {
         Ok(s) => symbolic_expressions::from_sexp(&s),
         Err(x) => Err(format!("ParseError: {:?}", x).into()),
     };
diff --git a/src/lib.rs b/src/lib.rs
index 7700b4b..9a3a0c9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -236,6 +236,39 @@ pub fn read_fp_lib_table(name: &Path) -> Result<fp_lib_table::FpLibTable, KicadE
     }
 }
 
+// parse a symbolic-expression, unless it is nested so deeply that the recursion
+// of the parser would overflow the stack
+fn parse_sexp(s: &str) -> result::Result<Sexp, SexpError> {
+    let mut depth = 0;
+    let mut chars = s.chars().peekable();
+    while let Some(c) = chars.next() {
+        match c {
+            '(' => depth += 1,
+            ')' => depth -= 1,
+            '"' => {
+                let mut escape = false;
+                for c in &mut chars {
+                    if c == '"' && !escape {
+                        break;
+                    }
+                    escape = c == '\\';
+                }
+            }
+            ' ' | '\t' | '\r' | '\n' => (),
+            _ => while let Some(&c) = chars.peek() {
+                match c {
+                    ' ' | '(' | ')' | '\r' | '\n' => break,
+                    _ => chars.next(),
+                };
+            },
+        }
+        if depth > 500 {
+            return Err("nested too deeply".to_string().into());
+        }
+    }
+    symbolic_expressions::parser::parse_str(s)
+}
+
 // the name of a list, which can be empty in a damaged file
 fn list_name(s: &Sexp) -> result::Result<&String, SexpError> {
     match s.list()?.first() {
-- 
2.43.0


From 7b03a757a159390bd9e95de5253a1d9c1e803b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:28:39 +0000
Subject: [PATCH 18/18] fix: do not panic when ordering an empty reference

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9a3a0c9..ebab270 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -388,7 +388,7 @@ pub trait Adjust {
 /// ordering used for ordering by component reference
 /// to e.g. avoid U1 U101 U2 and get U1 U2 U101
 pub fn reference_ord(r: &str) -> (char, i64) {
-    let c = r.chars().nth(0).unwrap();
+    let c = r.chars().nth(0).unwrap_or(' ');
     let mut s = String::new();
     for c in r.chars() {
         if c >= '0' && c <= '9' {
-- 
2.43.0

