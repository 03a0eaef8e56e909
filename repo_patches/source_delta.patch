From 864e044df0796e41e997a698e2381aa34cdbd9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:11 +0000
Subject: [PATCH 01/17] fix: let attributes naming a default value override an
 outer style

'fg=default', 'bg=default' and 'normal' in a format string were dropped
because the parsed attributes were applied to the default style and then
diffed against it, so they could not reset the style of an enclosing
formatter.
---
 macros/src/format.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/macros/src/format.rs b/macros/src/format.rs
index 896a3eb..9563926 100644
--- a/macros/src/format.rs
+++ b/macros/src/format.rs
@@ -9,7 +9,7 @@ use nom::{
     sequence::{delimited, pair, preceded, terminated},
     IResult,
 };
-use stylish_style::{Background, Color, Foreground, Intensity, Restyle, Style, StyleDiff};
+use stylish_style::{Color, Intensity, StyleDiff};
 
 fn identifier(input: &str) -> IResult<&str, &str> {
     recognize(pair(
@@ -48,19 +48,24 @@ impl<'a> Parse<'a> for Intensity {
     }
 }
 
-impl<'a> Parse<'a> for Box<dyn Restyle> {
-    #[allow(trivial_casts)]
+enum Attribute {
+    Foreground(Color),
+    Background(Color),
+    Intensity(Intensity),
+}
+
+impl<'a> Parse<'a> for Attribute {
     fn parse(input: &'a str) -> IResult<&'a str, Self> {
         alt((
             map(
                 preceded(tag("fg"), cut(preceded(tag("="), Color::parse))),
-                |color| Box::new(Foreground(color)) as _,
+                Self::Foreground,
             ),
             map(
                 preceded(tag("bg"), cut(preceded(tag("="), Color::parse))),
-                |color| Box::new(Background(color)) as _,
+                Self::Background,
             ),
-            map(Intensity::parse, |intensity| Box::new(intensity) as _),
+            map(Intensity::parse, Self::Intensity),
         ))(input)
     }
 }
@@ -70,11 +75,19 @@ impl<'a> Parse<'a> for StyleDiff {
         // TODO: This should only allow each variant once, but there's no sort of
         // optional-permutation helper in nom
         map(
-            separated_list0(tag(","), cut(<Box<dyn Restyle>>::parse)),
-            |restyles| {
-                Style::default()
-                    .with(restyles.as_slice())
-                    .diff_from(Style::default())
+            separated_list0(tag(","), cut(Attribute::parse)),
+            |attributes| {
+                // Record every attribute that was named, even where it names the value the
+                // default style has: that has to override an outer style.
+                let mut diff = StyleDiff::default();
+                for attribute in attributes {
+                    match attribute {
+                        Attribute::Foreground(color) => diff.foreground = Some(color),
+                        Attribute::Background(color) => diff.background = Some(color),
+                        Attribute::Intensity(intensity) => diff.intensity = Some(intensity),
+                    }
+                }
+                diff
             },
         )(input)
     }
-- 
2.43.0


From ff0a78f95bb1efc450fdf30678cdec57dda8023c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:40 +0000
Subject: [PATCH 02/17] fix: accept empty attribute lists and trailing commas

The documented grammar is '(' [attribute [',' attribute]* [',']] ')', but
both '()' and a trailing comma were rejected.
---
 macros/src/format.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/macros/src/format.rs b/macros/src/format.rs
index 9563926..f9aef40 100644
--- a/macros/src/format.rs
+++ b/macros/src/format.rs
@@ -5,7 +5,7 @@ use nom::{
     bytes::complete::tag,
     character::complete::{anychar, char, digit1, none_of, satisfy},
     combinator::{all_consuming, cut, map, map_res, opt, recognize, value},
-    multi::{many0, many1, separated_list0},
+    multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, terminated},
     IResult,
 };
@@ -75,12 +75,15 @@ impl<'a> Parse<'a> for StyleDiff {
         // TODO: This should only allow each variant once, but there's no sort of
         // optional-permutation helper in nom
         map(
-            separated_list0(tag(","), cut(Attribute::parse)),
+            opt(terminated(
+                separated_list1(tag(","), Attribute::parse),
+                opt(tag(",")),
+            )),
             |attributes| {
                 // Record every attribute that was named, even where it names the value the
                 // default style has: that has to override an outer style.
                 let mut diff = StyleDiff::default();
-                for attribute in attributes {
+                for attribute in attributes.into_iter().flatten() {
                     match attribute {
                         Attribute::Foreground(color) => diff.foreground = Some(color),
                         Attribute::Background(color) => diff.background = Some(color),
@@ -198,7 +201,7 @@ impl<'a> Parse<'a> for FormatSpec<'a> {
         let (input, zero) = opt(value(true, tag("0")))(input)?;
         let (input, width) = opt(Count::parse)(input)?;
         let (input, precision) = opt(preceded(tag("."), Count::parse))(input)?;
-        let (input, style) = opt(delimited(tag("("), cut(StyleDiff::parse), tag(")")))(input)?;
+        let (input, style) = opt(delimited(tag("("), StyleDiff::parse, cut(tag(")"))))(input)?;
         let (input, debug_hex_and_format_trait) = opt(alt((
             value((None, FormatTrait::Debug), tag("?")),
             value((Some(DebugHex::Lower), FormatTrait::Debug), tag("x?")),
-- 
2.43.0


From bb28d1904e58c23f6691971e79fe0bd758425c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:43 +0000
Subject: [PATCH 03/17] fix: accept the bright colors in format strings

fg and bg are documented to take any Color value in lowercase, but the
bright colors were rejected.
---
 macros/src/format.rs    | 8 ++++++++
 macros/src/to_tokens.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/macros/src/format.rs b/macros/src/format.rs
index f9aef40..bc014a6 100644
--- a/macros/src/format.rs
+++ b/macros/src/format.rs
@@ -33,6 +33,14 @@ impl<'a> Parse<'a> for Color {
             value(Color::Magenta, tag("magenta")),
             value(Color::Cyan, tag("cyan")),
             value(Color::White, tag("white")),
+            value(Color::BrightBlack, tag("brightblack")),
+            value(Color::BrightRed, tag("brightred")),
+            value(Color::BrightGreen, tag("brightgreen")),
+            value(Color::BrightYellow, tag("brightyellow")),
+            value(Color::BrightBlue, tag("brightblue")),
+            value(Color::BrightMagenta, tag("brightmagenta")),
+            value(Color::BrightCyan, tag("brightcyan")),
+            value(Color::BrightWhite, tag("brightwhite")),
             value(Color::Default, tag("default")),
         ))(input)
     }
diff --git a/macros/src/to_tokens.rs b/macros/src/to_tokens.rs
index 5a6d4ea..1b36de9 100644
--- a/macros/src/to_tokens.rs
+++ b/macros/src/to_tokens.rs
@@ -59,6 +59,14 @@ impl<'a> ToTokens for Scoped<'a, Color> {
             Color::Magenta => quote!(#export::Color::Magenta),
             Color::Cyan => quote!(#export::Color::Cyan),
             Color::White => quote!(#export::Color::White),
+            Color::BrightBlack => quote!(#export::Color::BrightBlack),
+            Color::BrightRed => quote!(#export::Color::BrightRed),
+            Color::BrightGreen => quote!(#export::Color::BrightGreen),
+            Color::BrightYellow => quote!(#export::Color::BrightYellow),
+            Color::BrightBlue => quote!(#export::Color::BrightBlue),
+            Color::BrightMagenta => quote!(#export::Color::BrightMagenta),
+            Color::BrightCyan => quote!(#export::Color::BrightCyan),
+            Color::BrightWhite => quote!(#export::Color::BrightWhite),
             Color::Default => quote!(#export::Color::Default),
             color => unreachable!("unknown color {color:?}"),
         }
-- 
2.43.0


From a9e4db2d01b612058b9321b174c4c65bededc8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:45 +0000
Subject: [PATCH 04/17] fix: clear bold before setting faint and vice versa in
 ANSI output

SGR 1 and 2 set independent attributes which only 22 (or 0) resets, so
going from bold to faint text left the faint text bold as well.
---
 ansi/src/ansi.rs |  3 ++-
 ansi/src/io.rs   |  3 ++-
 ansi/src/util.rs | 11 +++++++++++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/ansi/src/ansi.rs b/ansi/src/ansi.rs
index 899e015..c222f4d 100644
--- a/ansi/src/ansi.rs
+++ b/ansi/src/ansi.rs
@@ -59,7 +59,8 @@ impl<T: fmt::Write> Write for Ansi<T> {
             let segments = [
                 diff.foreground.map(util::foreground),
                 diff.background.map(util::background),
-                diff.intensity.map(util::intensity),
+                diff.intensity
+                    .map(|new| util::intensity_change(self.current.intensity, new)),
             ];
             let mut segments = segments.iter().filter_map(|&s| s);
             if let Some(segment) = segments.next() {
diff --git a/ansi/src/io.rs b/ansi/src/io.rs
index d54e5be..e89349b 100644
--- a/ansi/src/io.rs
+++ b/ansi/src/io.rs
@@ -61,7 +61,8 @@ impl<T: std::io::Write> Write for Ansi<T> {
             let segments = [
                 diff.foreground.map(util::foreground),
                 diff.background.map(util::background),
-                diff.intensity.map(util::intensity),
+                diff.intensity
+                    .map(|new| util::intensity_change(self.current.intensity, new)),
             ];
             let mut segments = segments.iter().filter_map(|&s| s);
             if let Some(segment) = segments.next() {
diff --git a/ansi/src/util.rs b/ansi/src/util.rs
index fd7fbca..cea7ee5 100644
--- a/ansi/src/util.rs
+++ b/ansi/src/util.rs
@@ -58,3 +58,14 @@ pub(crate) fn intensity(intensity: Intensity) -> &'static str {
         _ => "22",
     }
 }
+
+/// The codes to get from one intensity to another. On a terminal bold and faint
+/// are independent attributes, setting one does not clear the other, so changing
+/// between them has to go through normal.
+pub(crate) fn intensity_change(original: Intensity, new: Intensity) -> &'static str {
+    match (original, new) {
+        (Intensity::Faint, Intensity::Bold) => "22;1",
+        (Intensity::Bold, Intensity::Faint) => "22;2",
+        (_, new) => intensity(new),
+    }
+}
-- 
2.43.0


From 4138971d4dc8d7231ee17d31e1f2789224dfdc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:17 +0000
Subject: [PATCH 05/17] fix: reject duplicate named arguments

The earlier of two arguments with the same name was silently ignored,
std::fmt rejects this and unused arguments are otherwise rejected too.
---
 macros/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index a8632fb..8e3bb03 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -75,6 +75,9 @@ impl syn::parse::Parse for ArgsInput {
                     } else {
                         panic!()
                     };
+                    if named_args.iter().any(|(name, _)| *name == ident) {
+                        panic!("duplicate argument named `{ident}`")
+                    }
                     named_args.push((ident, *right));
                     onto_named = true;
                 }
-- 
2.43.0


From 44f65c8687deac6a59205ef2c1d493db313be4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 06/17] fix: match raw identifiers of named arguments by their
 plain name

The format string refers to an argument named r#type as {type}, which was
reported as an unused argument.
---
 macros/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 8e3bb03..e28ebb9 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -10,6 +10,7 @@ use std::collections::{HashMap, HashSet};
 use proc_macro2::Span;
 use quote::{quote, ToTokens};
 use syn::{
+    ext::IdentExt as _,
     parse::{ParseStream, Result},
     parse_macro_input, Expr, ExprAssign, ExprPath, Ident, Index, LitStr, Path, PathArguments,
     Token,
@@ -71,7 +72,7 @@ impl syn::parse::Parse for ArgsInput {
                 Expr::Assign(ExprAssign { left, right, .. }) if matches!(&*left, Expr::Path(ExprPath { path, .. }) if path.segments.len() == 1 && matches!(path.segments[0].arguments, PathArguments::None)) =>
                 {
                     let ident = if let Expr::Path(ExprPath { mut path, .. }) = *left {
-                        path.segments.pop().unwrap().into_value().ident
+                        path.segments.pop().unwrap().into_value().ident.unraw()
                     } else {
                         panic!()
                     };
-- 
2.43.0


From f61a3742ce076f7e3caba6d85cd9e8deb21c9631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:25 +0000
Subject: [PATCH 07/17] fix: reject widths and precisions that core::fmt cannot
 represent

They compiled and then panicked when formatted.
---
 macros/src/format.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/macros/src/format.rs b/macros/src/format.rs
index bc014a6..1062a1b 100644
--- a/macros/src/format.rs
+++ b/macros/src/format.rs
@@ -180,7 +180,11 @@ impl<'a> Parse<'a> for Count<'a> {
     fn parse(input: &'a str) -> IResult<&'a str, Self> {
         alt((
             map(terminated(FormatArgRef::parse, tag("$")), Self::Parameter),
-            map(map_res(digit1, usize::from_str), Self::Integer),
+            // `core::fmt` only supports counts up to `u16::MAX`, and panics at runtime for
+            // any bigger one that it did not see at compile time
+            map(map_res(digit1, u16::from_str), |count| {
+                Self::Integer(count.into())
+            }),
         ))(input)
     }
 }
-- 
2.43.0


From 781c1bfc9ac30dcd20de8c4334661602d97e0d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:26 +0000
Subject: [PATCH 08/17] fix: accept whitespace at the end of a replacement
 field

std::fmt's grammar allows it after the format spec.
---
 macros/src/format.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/macros/src/format.rs b/macros/src/format.rs
index 1062a1b..f54075a 100644
--- a/macros/src/format.rs
+++ b/macros/src/format.rs
@@ -2,7 +2,7 @@ use std::str::FromStr;
 
 use nom::{
     branch::alt,
-    bytes::complete::tag,
+    bytes::complete::{tag, take_while},
     character::complete::{anychar, char, digit1, none_of, satisfy},
     combinator::{all_consuming, cut, map, map_res, opt, recognize, value},
     multi::{many0, many1, separated_list1},
@@ -273,6 +273,7 @@ impl<'a> Parse<'a> for FormatArg<'a> {
     fn parse(input: &'a str) -> IResult<&'a str, Self> {
         let (input, arg) = opt(FormatArgRef::parse)(input)?;
         let (input, format_spec) = opt(preceded(tag(":"), FormatSpec::parse))(input)?;
+        let (input, _) = take_while(char::is_whitespace)(input)?;
         Ok((
             input,
             Self {
-- 
2.43.0


From ea1019e4b84814bd5340231506058b0968b9f15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 09/17] fix: allow format strings to capture self

std::fmt supports {self}, here it tried to create the invalid raw
identifier r#self and panicked.
---
 macros/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index e28ebb9..98ce3c5 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -174,10 +174,16 @@ fn format_args_impl(
                             quote!(__stylish_named_args.#index)
                         } else {
                             let i = implicit_named_args_values.len();
+                            // `self` is the one keyword that is captured as itself and cannot be
+                            // written as a raw identifier
+                            let new_ident = match name {
+                                "self" => Ident::new,
+                                _ => Ident::new_raw,
+                            };
                             implicit_named_args_values.push(ExprPath {
                                 attrs: Vec::new(),
                                 qself: None,
-                                path: Ident::new_raw(
+                                path: new_ident(
                                     name,
                                     Span::call_site().resolved_at(format_string.span()),
                                 )
-- 
2.43.0


From f6b66b9cc95e05269d5b51d0a190a9abed181e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 10/17] fix: reference the whole of an argument expression, not
 its first operand

---
 macros/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 98ce3c5..2d8556a 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -117,7 +117,8 @@ fn format_args_impl(
     assert!(leftover.is_empty());
     let num_positional_args = positional_args.len();
     let positional_args = positional_args.into_iter();
-    let positional_args = quote! { (#(&#positional_args,)*) };
+    // the parentheses keep the reference from binding to the first operand only
+    let positional_args = quote! { (#(&(#positional_args),)*) };
     let (named_args_names, named_args_values): (Vec<_>, Vec<_>) = named_args.into_iter().unzip();
     let named_args_names: HashMap<String, usize> = named_args_names
         .into_iter()
@@ -127,7 +128,7 @@ fn format_args_impl(
         .collect();
     let named_args_values = named_args_values.into_iter();
     let named_args_values = quote! {
-        (#(&#named_args_values,)*)
+        (#(&(#named_args_values),)*)
     };
     let mut implicit_named_args_values = Vec::new();
     let mut used_positional_args = HashSet::new();
-- 
2.43.0


From 6550a14af0fbd38dfffc8d44686b7a01285ef5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 11/17] fix: keep attributes of a format string working where
 names of the prelude are shadowed

The tokens for a style named `diff`, `Some` and `Default` as they are in
scope where the macro is used, so a user's own item of that name (a constant,
a unit struct, a variant) broke or changed the expansion.
---
 core/src/lib.rs         |  2 +-
 macros/src/to_tokens.rs | 15 ++++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index d88c45d..eb5daaf 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -48,7 +48,7 @@ pub use self::{format::format, string::String};
 #[cfg(feature = "macros")]
 #[doc(hidden)]
 pub mod 𓀄 {
-    pub use core::{fmt, option::Option};
+    pub use core::{default::Default, fmt, option::Option};
 
     pub use stylish_macros::{format_args, format_args_nl};
     pub use with_builtin_macros::with_builtin;
diff --git a/macros/src/to_tokens.rs b/macros/src/to_tokens.rs
index 1b36de9..5db8b6c 100644
--- a/macros/src/to_tokens.rs
+++ b/macros/src/to_tokens.rs
@@ -105,21 +105,26 @@ impl<'a> ToTokens for Scoped<'a, StyleDiff> {
             intensity,
             ..
         } = self.as_ref();
+        // only names that cannot be shadowed where the macro is used
         let mut inner = TokenStream::new();
-        quote!(let mut diff = #export::StyleDiff::default();).to_tokens(&mut inner);
+        quote!(let mut __stylish_diff = <#export::StyleDiff as #export::Default>::default();)
+            .to_tokens(&mut inner);
         if let Some(foreground) = foreground {
             let foreground = self.scope(foreground);
-            quote!(diff.foreground = Some(#foreground);).to_tokens(&mut inner);
+            quote!(__stylish_diff.foreground = #export::Option::Some(#foreground);)
+                .to_tokens(&mut inner);
         }
         if let Some(background) = background {
             let background = self.scope(background);
-            quote!(diff.background = Some(#background);).to_tokens(&mut inner);
+            quote!(__stylish_diff.background = #export::Option::Some(#background);)
+                .to_tokens(&mut inner);
         }
         if let Some(intensity) = intensity {
             let intensity = self.scope(intensity);
-            quote!(diff.intensity = Some(#intensity);).to_tokens(&mut inner);
+            quote!(__stylish_diff.intensity = #export::Option::Some(#intensity);)
+                .to_tokens(&mut inner);
         }
-        quote!(diff).to_tokens(&mut inner);
+        quote!(__stylish_diff).to_tokens(&mut inner);
         quote!({ #inner }).to_tokens(tokens);
     }
 }
-- 
2.43.0


From adb890c0ed8a2aa3f9fe460856e5714d471d1abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 12/17] fix: do not let a local of the format macros clash with
 a user's item

`let res` is a pattern: a constant, static or unit struct named `res` where
the macro is used turned it into a match against that item.
---
 ansi/src/format.rs  | 4 ++--
 core/src/format.rs  | 4 ++--
 html/src/format.rs  | 4 ++--
 plain/src/format.rs | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/ansi/src/format.rs b/ansi/src/format.rs
index fac9f0f..b7138b4 100644
--- a/ansi/src/format.rs
+++ b/ansi/src/format.rs
@@ -17,8 +17,8 @@ use crate::Ansi;
 #[macro_export]
 macro_rules! format {
     ($($arg:tt)*) => {{
-        let res = $crate::format($crate::𓀄::format_args!($($arg)*));
-        res
+        let __stylish_res = $crate::format($crate::𓀄::format_args!($($arg)*));
+        __stylish_res
     }}
 }
 
diff --git a/core/src/format.rs b/core/src/format.rs
index 9d9c19b..e87fe77 100644
--- a/core/src/format.rs
+++ b/core/src/format.rs
@@ -18,8 +18,8 @@ use crate::{Arguments, String, Write};
 #[macro_export]
 macro_rules! format {
     ($($arg:tt)*) => {{
-        let res = $crate::format($crate::format_args!($($arg)*));
-        res
+        let __stylish_res = $crate::format($crate::format_args!($($arg)*));
+        __stylish_res
     }};
 }
 
diff --git a/html/src/format.rs b/html/src/format.rs
index 51ba819..d669893 100644
--- a/html/src/format.rs
+++ b/html/src/format.rs
@@ -17,8 +17,8 @@ use crate::Html;
 #[macro_export]
 macro_rules! format {
     ($($arg:tt)*) => {{
-        let res = $crate::format($crate::𓀄::format_args!($($arg)*));
-        res
+        let __stylish_res = $crate::format($crate::𓀄::format_args!($($arg)*));
+        __stylish_res
     }}
 }
 
diff --git a/plain/src/format.rs b/plain/src/format.rs
index 6a68159..9616a79 100644
--- a/plain/src/format.rs
+++ b/plain/src/format.rs
@@ -16,8 +16,8 @@ use crate::Plain;
 #[macro_export]
 macro_rules! format {
     ($($arg:tt)*) => {{
-        let res = $crate::format($crate::𓀄::format_args!($($arg)*));
-        res
+        let __stylish_res = $crate::format($crate::𓀄::format_args!($($arg)*));
+        __stylish_res
     }}
 }
 
-- 
2.43.0


From e68dc47e6004dc1f842ab4af7b299ca9ad448993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 13/17] fix: accept concat!, stringify! and env! as the format
 of writeln!

As write! and std::writeln! do.
---
 core/src/write.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/write.rs b/core/src/write.rs
index 72c3a14..03b7190 100644
--- a/core/src/write.rs
+++ b/core/src/write.rs
@@ -163,7 +163,10 @@ macro_rules! writeln {
     ($dst:expr $(,)?) => {
         $crate::write!($dst, "\n")
     };
-    ($dst:expr, $($arg:tt)*) => {
-        $dst.write_fmt($crate::𓀄::format_args_nl!(crate=$crate, $($arg)*))
+    ($dst:expr, $fmt:literal $(, $($arg:tt)*)?) => {
+        $dst.write_fmt($crate::𓀄::format_args_nl!(crate=$crate, $fmt $(, $($arg)*)?))
+    };
+    ($dst:expr, $fmt:expr $(, $($arg:tt)*)?) => {
+        $crate::write!($dst, concat!($fmt, "\n") $(, $($arg)*)?)
     };
 }
-- 
2.43.0


From 2e3dfb7e929ebd3580f2dd6860cd90333c11a935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 14/17] fix: let positions refer to named arguments

std::fmt gives named arguments positions after those of the positional ones;
here such a position was a missing argument.
---
 macros/src/lib.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 2d8556a..47087ae 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -120,9 +120,13 @@ fn format_args_impl(
     // the parentheses keep the reference from binding to the first operand only
     let positional_args = quote! { (#(&(#positional_args),)*) };
     let (named_args_names, named_args_values): (Vec<_>, Vec<_>) = named_args.into_iter().unzip();
-    let named_args_names: HashMap<String, usize> = named_args_names
+    let named_args_order: Vec<String> = named_args_names
         .into_iter()
         .map(|name| name.to_string())
+        .collect();
+    let named_args_names: HashMap<String, usize> = named_args_order
+        .iter()
+        .cloned()
         .enumerate()
         .map(|(i, s)| (s, i))
         .collect();
@@ -133,7 +137,8 @@ fn format_args_impl(
     let mut implicit_named_args_values = Vec::new();
     let mut used_positional_args = HashSet::new();
     let mut used_named_args = HashSet::new();
-    let mut next_arg_iter = 0..num_positional_args;
+    // named arguments have positions as well, after those of the positional arguments
+    let mut next_arg_iter = 0..(num_positional_args + named_args_order.len());
     let statements: Vec<_> = format
         .pieces
         .into_iter()
@@ -153,20 +158,21 @@ fn format_args_impl(
             }) => {
                 let formatter_args = Scoped::new(&export, &formatter_args);
                 let style = Scoped::new(&export, &style);
+                let arg = arg.or_else(|| next_arg_iter.next().map(FormatArgRef::Positional));
                 let arg = match arg {
-                    None => {
-                        let i = next_arg_iter.next().expect("missing argument");
+                    None => panic!("missing argument"),
+                    Some(FormatArgRef::Positional(i)) if i < num_positional_args => {
                         let index = Index::from(i);
                         used_positional_args.insert(i);
                         quote!(__stylish_positional_args.#index)
                     }
                     Some(FormatArgRef::Positional(i)) => {
-                        let index = Index::from(i);
-                        if i >= num_positional_args {
+                        let index = Index::from(i - num_positional_args);
+                        let Some(name) = named_args_order.get(index.index as usize) else {
                             panic!("missing positional argument {i}");
-                        }
-                        used_positional_args.insert(i);
-                        quote!(__stylish_positional_args.#index)
+                        };
+                        used_named_args.insert(name.clone());
+                        quote!(__stylish_named_args.#index)
                     }
                     Some(FormatArgRef::Named(name)) => {
                         if let Some(&i) = named_args_names.get(name) {
-- 
2.43.0


From 597383a35e26169d18ad8b9bc7151b283bb35cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:27 +0000
Subject: [PATCH 15/17] fix: keep expressions captured by a macro_rules macro
 together

An `$x:expr` that a macro hands on to the format macros in a larger
expression, say `$x * 2` with `1 + 1` for `$x`, was evaluated as
`1 + 1 * 2`: captured fragments come in invisible groups, which the compiler
ignores in what a procedural macro puts out.
---
 macros/src/lib.rs | 44 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 47087ae..787216e 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -7,7 +7,7 @@
 
 use std::collections::{HashMap, HashSet};
 
-use proc_macro2::Span;
+use proc_macro2::{Delimiter, Group, Span, TokenStream, TokenTree};
 use quote::{quote, ToTokens};
 use syn::{
     ext::IdentExt as _,
@@ -241,10 +241,51 @@ fn format_args_impl(
     }
 }
 
+/// Fragments captured by a `macro_rules!` macro come as groups without
+/// delimiters, which the compiler ignores in the output of a procedural macro:
+/// for `1 + 1` as `$x` it would read `$x * 2` as `1 + 1 * 2`. Put those that are
+/// expressions in parentheses where operators next to them could change what
+/// they mean.
+fn parenthesize_captures(tokens: TokenStream) -> TokenStream {
+    fn has_captures(tokens: TokenStream) -> bool {
+        tokens.into_iter().any(|token| match token {
+            TokenTree::Group(group) => {
+                group.delimiter() == Delimiter::None || has_captures(group.stream())
+            }
+            _ => false,
+        })
+    }
+
+    fn is_compound(tokens: TokenStream) -> bool {
+        use Expr::{Binary, Cast, Closure, Range, Reference, Unary};
+        matches!(
+            syn::parse2(tokens),
+            Ok(Binary(_) | Cast(_) | Closure(_) | Range(_) | Reference(_) | Unary(_))
+        )
+    }
+
+    tokens
+        .into_iter()
+        .map(|token| match token {
+            TokenTree::Group(group) if has_captures(TokenTree::from(group.clone()).into()) => {
+                let delimiter = match group.delimiter() {
+                    Delimiter::None if is_compound(group.stream()) => Delimiter::Parenthesis,
+                    delimiter => delimiter,
+                };
+                let mut new = Group::new(delimiter, parenthesize_captures(group.stream()));
+                new.set_span(group.span());
+                new.into()
+            }
+            token => token,
+        })
+        .collect()
+}
+
 /// Internal implementation details of
 /// [`stylish_core::format_args!`](https://docs.rs/stylish-core/latest/stylish_core/macro.format_args.html).
 #[proc_macro]
 pub fn format_args(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
+    let input = parenthesize_captures(input.into()).into();
     format_args_impl(parse_macro_input!(input as ArgsInput))
         .into_token_stream()
         .into()
@@ -254,6 +295,7 @@ pub fn format_args(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
 /// [`stylish_core::format_args!`](https://docs.rs/stylish-core/latest/stylish_core/macro.format_args.html).
 #[proc_macro]
 pub fn format_args_nl(input: proc_macro::TokenStream) -> proc_macro::TokenStream {
+    let input = parenthesize_captures(input.into()).into();
     let input = parse_macro_input!(input as ArgsInput);
     let format = LitStr::new(&(input.format.value() + "\n"), input.format.span());
     format_args_impl(ArgsInput { format, ..input })
-- 
2.43.0


From 52505239d3f96b832eedc893e8da391d44438e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:48 +0000
Subject: [PATCH 16/17] fix: name arguments like core::format_args! does

A keyword before `=` is a name, too, and `::x = 5`, `<T>::x = 5` or
`#[attr] x = 5` do not name anything.
---
 macros/src/lib.rs | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index 787216e..c1a57ce 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -12,8 +12,7 @@ use quote::{quote, ToTokens};
 use syn::{
     ext::IdentExt as _,
     parse::{ParseStream, Result},
-    parse_macro_input, Expr, ExprAssign, ExprPath, Ident, Index, LitStr, Path, PathArguments,
-    Token,
+    parse_macro_input, Expr, ExprPath, Ident, Index, LitStr, Path, Token,
 };
 
 use self::{
@@ -67,27 +66,24 @@ impl syn::parse::Parse for ArgsInput {
             if input.is_empty() {
                 break;
             }
-            let expr = input.parse::<Expr>()?;
-            match expr {
-                Expr::Assign(ExprAssign { left, right, .. }) if matches!(&*left, Expr::Path(ExprPath { path, .. }) if path.segments.len() == 1 && matches!(path.segments[0].arguments, PathArguments::None)) =>
-                {
-                    let ident = if let Expr::Path(ExprPath { mut path, .. }) = *left {
-                        path.segments.pop().unwrap().into_value().ident.unraw()
-                    } else {
-                        panic!()
-                    };
-                    if named_args.iter().any(|(name, _)| *name == ident) {
-                        panic!("duplicate argument named `{ident}`")
-                    }
-                    named_args.push((ident, *right));
-                    onto_named = true;
+            // any word can be the name of an argument, keywords as well
+            if input.peek(Ident::peek_any)
+                && input.peek2(Token![=])
+                && !input.peek2(Token![==])
+                && !input.peek2(Token![=>])
+            {
+                let ident = input.call(Ident::parse_any)?.unraw();
+                input.parse::<Token![=]>()?;
+                if named_args.iter().any(|(name, _)| *name == ident) {
+                    panic!("duplicate argument named `{ident}`")
                 }
-                expr => {
-                    if onto_named {
-                        panic!("positional arg after named")
-                    }
-                    positional_args.push(expr);
+                named_args.push((ident, input.parse()?));
+                onto_named = true;
+            } else {
+                if onto_named {
+                    panic!("positional arg after named")
                 }
+                positional_args.push(input.parse()?);
             }
         }
         Ok(Self {
-- 
2.43.0


From 2a0e0bacbaf7d088b12fbaeb5338e7d1defc934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:16 +0000
Subject: [PATCH 17/17] fix: reject suffixes on format strings

As core::format_args! does.
---
 macros/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/macros/src/lib.rs b/macros/src/lib.rs
index c1a57ce..57a41b5 100644
--- a/macros/src/lib.rs
+++ b/macros/src/lib.rs
@@ -42,9 +42,9 @@ impl syn::parse::Parse for ArgsInput {
             None
         };
         #[cfg(not(stylish_proc_macro_expand))]
-        let format = input.parse()?;
+        let format: LitStr = input.parse()?;
         #[cfg(stylish_proc_macro_expand)]
-        let format = {
+        let format: LitStr = {
             use syn::spanned::Spanned;
             let expr = input.parse::<Expr>()?;
             let span = expr.span();
@@ -58,6 +58,12 @@ impl syn::parse::Parse for ArgsInput {
             }
             syn::parse(expanded)?
         };
+        if !format.suffix().is_empty() {
+            return Err(syn::parse::Error::new(
+                format.span(),
+                "suffixes on string literals are invalid",
+            ));
+        }
         let mut positional_args = Vec::new();
         let mut named_args = Vec::new();
         let mut onto_named = false;
-- 
2.43.0

