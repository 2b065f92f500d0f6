From ac03cd7c5895e3ed29cc55f7338417c807ab5325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:56 +0000
Subject: [PATCH 01/16] fix: BitRange::from_bit_range returns None for reversed
 or unrepresentable ranges

---
 svd-rs/src/bitrange.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svd-rs/src/bitrange.rs b/svd-rs/src/bitrange.rs
index 5741899..9bdcf08 100644
--- a/svd-rs/src/bitrange.rs
+++ b/svd-rs/src/bitrange.rs
@@ -70,7 +70,7 @@ impl BitRange {
         let lsb = parts.next()?.parse::<u32>().ok()?;
         Some(Self {
             offset: lsb,
-            width: msb - lsb + 1,
+            width: msb.checked_sub(lsb)?.checked_add(1)?,
             range_type: BitRangeType::BitRange,
         })
     }
-- 
2.43.0


From f0e731253902061bb4e856d25cf6d5d2ab875af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:56 +0000
Subject: [PATCH 02/16] fix: report bit ranges whose width does not fit u32
 instead of overflowing

---
 svd-parser/src/bitrange.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/svd-parser/src/bitrange.rs b/svd-parser/src/bitrange.rs
index 0fb8ec4..f77464e 100644
--- a/svd-parser/src/bitrange.rs
+++ b/svd-parser/src/bitrange.rs
@@ -84,12 +84,13 @@ impl Parse for BitRange {
                 return Err(SVDError::InvalidBitRange(InvalidBitRange::Syntax).at(tree.id()));
             };
 
-        if start > end {
-            return Err(SVDError::InvalidBitRange(InvalidBitRange::Size).at(tree.id()));
-        }
+        let width = end
+            .checked_sub(start)
+            .and_then(|w| w.checked_add(1))
+            .ok_or_else(|| SVDError::InvalidBitRange(InvalidBitRange::Size).at(tree.id()))?;
         Ok(Self {
             offset: start,
-            width: end - start + 1,
+            width,
             range_type,
         })
     }
-- 
2.43.0


From e3b54a11bd31a4d2aeab88217299161b5a328086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:56 +0000
Subject: [PATCH 03/16] fix: indexes_as_range does not overflow when the
 indexes span all of u32

---
 svd-rs/src/dimelement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svd-rs/src/dimelement.rs b/svd-rs/src/dimelement.rs
index b351f05..d5f2534 100644
--- a/svd-rs/src/dimelement.rs
+++ b/svd-rs/src/dimelement.rs
@@ -178,7 +178,7 @@ impl DimElement {
         }
         let min = *integers.iter().min()?;
         let max = *integers.iter().max()?;
-        if max - min + 1 != self.dim {
+        if (max - min).checked_add(1) != Some(self.dim) {
             return None;
         }
         for (&i, r) in integers.iter().zip(min..=max) {
-- 
2.43.0


From 6a22269780c68f4fcdd7a87bfe2582d78f34f354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:56 +0000
Subject: [PATCH 04/16] fix: accept an upper case don't care character in 0b
 numbers, as in # numbers

---
 svd-parser/src/types.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/svd-parser/src/types.rs b/svd-parser/src/types.rs
index 878897e..6345302 100644
--- a/svd-parser/src/types.rs
+++ b/svd-parser/src/types.rs
@@ -27,7 +27,10 @@ impl Parse for u32 {
             // Handle strings in the binary form of:
             // 0b01101x1
             // along with don't care character x (replaced with 0)
-            u32::from_str_radix(&str::replace(&text["0b".len()..], "x", "0"), 2)
+            u32::from_str_radix(
+                &str::replace(&text.to_lowercase()["0b".len()..], "x", "0"),
+                2,
+            )
         } else {
             text.parse::<u32>()
         })
@@ -57,7 +60,10 @@ impl Parse for u64 {
             // Handle strings in the binary form of:
             // 0b01101x1
             // along with don't care character x (replaced with 0)
-            u64::from_str_radix(&str::replace(&text["0b".len()..], "x", "0"), 2)
+            u64::from_str_radix(
+                &str::replace(&text.to_lowercase()["0b".len()..], "x", "0"),
+                2,
+            )
         } else {
             text.parse::<u64>()
         })
-- 
2.43.0


From 3b96e29143bdbbee5d1dec974c8333c99000729b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:56 +0000
Subject: [PATCH 05/16] fix: OffsetReversed sorting orders addresses of
 0x8000_0000 and above correctly

---
 svd-encoder/src/device.rs     | 2 +-
 svd-encoder/src/peripheral.rs | 2 +-
 svd-encoder/src/register.rs   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/svd-encoder/src/device.rs b/svd-encoder/src/device.rs
index 378e653..7d73705 100644
--- a/svd-encoder/src/device.rs
+++ b/svd-encoder/src/device.rs
@@ -99,7 +99,7 @@ fn sort_peripherals(refs: &mut [&Peripheral], sorting: Option<Sorting>) {
         match sorting {
             Sorting::Offset => refs.sort_by_key(|p| p.base_address),
             Sorting::OffsetReversed => {
-                refs.sort_by_key(|p| -(p.base_address as i32));
+                refs.sort_by_key(|p| std::cmp::Reverse(p.base_address));
             }
             Sorting::Name => refs.sort_by_key(|p| &p.name),
         }
diff --git a/svd-encoder/src/peripheral.rs b/svd-encoder/src/peripheral.rs
index f464961..156331e 100644
--- a/svd-encoder/src/peripheral.rs
+++ b/svd-encoder/src/peripheral.rs
@@ -144,7 +144,7 @@ fn sort_register_cluster(refs: &mut [&RegisterCluster], sorting: Option<Sorting>
         match sorting {
             Sorting::Offset => refs.sort_by_key(|r| r.address_offset()),
             Sorting::OffsetReversed => {
-                refs.sort_by_key(|r| -(r.address_offset() as i32));
+                refs.sort_by_key(|r| std::cmp::Reverse(r.address_offset()));
             }
             Sorting::Name => refs.sort_by_key(|r| r.name()),
         }
diff --git a/svd-encoder/src/register.rs b/svd-encoder/src/register.rs
index b4b4aa8..2418c97 100644
--- a/svd-encoder/src/register.rs
+++ b/svd-encoder/src/register.rs
@@ -116,7 +116,7 @@ fn sort_fields(refs: &mut [&Field], sorting: Option<Sorting>) {
         match sorting {
             Sorting::Offset => refs.sort_by_key(|f| f.bit_offset()),
             Sorting::OffsetReversed => {
-                refs.sort_by_key(|f| -(f.bit_offset() as i32));
+                refs.sort_by_key(|f| std::cmp::Reverse(f.bit_offset()));
             }
             Sorting::Name => refs.sort_by_key(|f| &f.name),
         }
-- 
2.43.0


From 776c7b75945ff05f734bd4fb8816ae53e1b54715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:56 +0000
Subject: [PATCH 06/16] fix: report an empty writeConstraint instead of
 panicking

---
 svd-parser/src/writeconstraint.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svd-parser/src/writeconstraint.rs b/svd-parser/src/writeconstraint.rs
index 38f46ac..3d63f6a 100644
--- a/svd-parser/src/writeconstraint.rs
+++ b/svd-parser/src/writeconstraint.rs
@@ -7,7 +7,9 @@ impl Parse for WriteConstraint {
     type Config = Config;
 
     fn parse(tree: &Node, _config: &Self::Config) -> Result<Self, Self::Error> {
-        let child = tree.first_element_child().unwrap();
+        let child = tree
+            .first_element_child()
+            .ok_or_else(|| SVDError::UnknownWriteConstraint.at(tree.id()))?;
         if child.next_sibling_element().is_some() {
             return Err(SVDError::MoreThanOneWriteConstraint.at(tree.id()));
         }
-- 
2.43.0


From 349c739fa8116ae7d738dc523a0655c652fe3ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:12 +0000
Subject: [PATCH 07/16] fix: FieldInfoBuilder::bit_offset combines with the bit
 width set before, not with an earlier offset

---
 svd-rs/src/field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svd-rs/src/field.rs b/svd-rs/src/field.rs
index 7fe336f..5919969 100644
--- a/svd-rs/src/field.rs
+++ b/svd-rs/src/field.rs
@@ -163,7 +163,7 @@ impl FieldInfoBuilder {
     pub fn bit_offset(mut self, value: u32) -> Self {
         if let Some(bit_range) = self.bit_range.as_mut() {
             bit_range.offset = value;
-        } else if let Some(width) = self.bit_offset {
+        } else if let Some(width) = self.bit_width {
             self.bit_range = Some(BitRange::from_offset_width(value, width));
             self.bit_width = None;
         } else {
-- 
2.43.0


From 305a9b30ea4c389ac0d6f30624b229fbc21f80f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:12 +0000
Subject: [PATCH 08/16] fix: EnumeratedValues::modify_from stores the
 derivedFrom reference it is given

---
 svd-rs/src/enumeratedvalues.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svd-rs/src/enumeratedvalues.rs b/svd-rs/src/enumeratedvalues.rs
index aff085f..7446546 100644
--- a/svd-rs/src/enumeratedvalues.rs
+++ b/svd-rs/src/enumeratedvalues.rs
@@ -114,6 +114,7 @@ impl EnumeratedValues {
         lvl: ValidateLevel,
     ) -> Result<(), SvdError> {
         if builder.derived_from.is_some() {
+            self.derived_from = builder.derived_from;
             self.name = None;
             self.usage = None;
             self.values = Vec::new();
-- 
2.43.0


From 308337c15e5bcdac3a19e2796a1ae851fb2af6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:52 +0000
Subject: [PATCH 09/16] fix: derivedFrom chains keep the scope of copied
 content and cycles are reported

---
 svd-parser/src/expand.rs | 90 +++++++++++++++++++++++++++++++++-------
 1 file changed, 76 insertions(+), 14 deletions(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index 73f418f..a482727 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -387,6 +387,17 @@ pub fn derive_cluster(
     dpath: &str,
     path: &BlockPath,
     index: &Index,
+) -> Result<Option<BlockPath>> {
+    let mut visited = vec![path.new_cluster(&c.name)];
+    derive_cluster_chain(c, dpath, path, index, &mut visited)
+}
+
+fn derive_cluster_chain(
+    c: &mut Cluster,
+    dpath: &str,
+    path: &BlockPath,
+    index: &Index,
+    visited: &mut Vec<BlockPath>,
 ) -> Result<Option<BlockPath>> {
     let (dparent, dname) = BlockPath::parse_str(dpath);
     let rdpath;
@@ -398,7 +409,7 @@ pub fn derive_cluster(
         cluster_path = path.new_cluster(dname);
         rdpath = path.clone();
     }
-    if &rdpath == path && dname == &c.name {
+    if visited.contains(&cluster_path) {
         return Err(anyhow!("Cluster {cluster_path} is self-derived"));
     }
     let d = index
@@ -406,13 +417,14 @@ pub fn derive_cluster(
         .get(&cluster_path)
         .ok_or_else(|| anyhow!("cluster {} not found", dpath))?;
 
+    visited.push(cluster_path.clone());
     let mut cpath = None;
     if c.children.is_empty() {
         cpath = Some(cluster_path);
     }
     *c = c.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        cpath = derive_cluster(c, dpath, &rdpath, index)?;
+        cpath = derive_cluster_chain(c, dpath, &rdpath, index, visited)?.or(cpath);
     }
     Ok(cpath)
 }
@@ -422,6 +434,17 @@ pub fn derive_register(
     dpath: &str,
     path: &BlockPath,
     index: &Index,
+) -> Result<Option<RegisterPath>> {
+    let mut visited = vec![path.new_register(&r.name)];
+    derive_register_chain(r, dpath, path, index, &mut visited)
+}
+
+fn derive_register_chain(
+    r: &mut Register,
+    dpath: &str,
+    path: &BlockPath,
+    index: &Index,
+    visited: &mut Vec<RegisterPath>,
 ) -> Result<Option<RegisterPath>> {
     let (dblock, dname) = RegisterPath::parse_str(dpath);
     let rdpath;
@@ -433,7 +456,7 @@ pub fn derive_register(
         reg_path = path.new_register(dname);
         rdpath = path.clone();
     }
-    if &rdpath == path && dname == &r.name {
+    if visited.contains(&reg_path) {
         return Err(anyhow!("Register {reg_path} is self-derived"));
     }
     let d = index
@@ -441,13 +464,14 @@ pub fn derive_register(
         .get(&reg_path)
         .ok_or_else(|| anyhow!("register {} not found", dpath))?;
 
+    visited.push(reg_path.clone());
     let mut rpath = None;
     if r.fields.is_none() {
         rpath = Some(reg_path);
     }
     *r = r.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        rpath = derive_register(r, dpath, &rdpath, index)?;
+        rpath = derive_register_chain(r, dpath, &rdpath, index, visited)?.or(rpath);
     }
     Ok(rpath)
 }
@@ -457,6 +481,17 @@ pub fn derive_field(
     dpath: &str,
     rpath: &RegisterPath,
     index: &Index,
+) -> Result<Option<FieldPath>> {
+    let mut visited = vec![rpath.new_field(&f.name)];
+    derive_field_chain(f, dpath, rpath, index, &mut visited)
+}
+
+fn derive_field_chain(
+    f: &mut Field,
+    dpath: &str,
+    rpath: &RegisterPath,
+    index: &Index,
+    visited: &mut Vec<FieldPath>,
 ) -> Result<Option<FieldPath>> {
     let (dregister, dname) = FieldPath::parse_str(dpath);
     let rdpath;
@@ -468,7 +503,7 @@ pub fn derive_field(
         field_path = rpath.new_field(dname);
         rdpath = rpath.clone();
     }
-    if &rdpath == rpath && dname == &f.name {
+    if visited.contains(&field_path) {
         return Err(anyhow!("Field {field_path} is self-derived"));
     }
     let d = index
@@ -476,13 +511,14 @@ pub fn derive_field(
         .get(&field_path)
         .ok_or_else(|| anyhow!("field {} not found", dpath))?;
 
+    visited.push(field_path.clone());
     let mut fpath = None;
     if f.enumerated_values.is_empty() {
         fpath = Some(field_path);
     }
     *f = f.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        fpath = derive_field(f, dpath, &rdpath, index)?;
+        fpath = derive_field_chain(f, dpath, &rdpath, index, visited)?.or(fpath);
     }
     Ok(fpath)
 }
@@ -571,6 +607,20 @@ pub fn derive_enumerated_values(
     if Some(dpath) == ev.name.as_deref() {
         return Err(anyhow!("EnumeratedValues {fpath}.{dpath} is self-derived"));
     }
+    let mut visited = Vec::new();
+    if let Some(name) = ev.name.as_ref() {
+        visited.push(fpath.new_enum(name));
+    }
+    derive_enumerated_values_chain(ev, dpath, fpath, index, &mut visited)
+}
+
+fn derive_enumerated_values_chain(
+    ev: &mut EnumeratedValues,
+    dpath: &str,
+    fpath: &FieldPath,
+    index: &Index,
+    visited: &mut Vec<EnumPath>,
+) -> Result<EnumPath> {
     let mut v: Vec<&str> = dpath.split('.').collect();
     let dname = v.pop().unwrap();
     let d = if v.is_empty() {
@@ -605,17 +655,18 @@ pub fn derive_enumerated_values(
             };
             FieldPath::new(rdpath, fdname)
         };
-        if &fdpath == fpath && Some(dname) == ev.name.as_deref() {
-            return Err(anyhow!("EnumeratedValues {fpath}.{dname} is self-derived"));
-        }
         let epath = EnumPath::new(fdpath, dname);
         index.evs.get(&epath).map(|d| (d, epath))
     };
 
     if let Some((d, epath)) = d {
+        if visited.contains(&epath) {
+            return Err(anyhow!("EnumeratedValues {epath} is self-derived"));
+        }
+        visited.push(epath.clone());
         *ev = ev.derive_from(d);
         if let Some(dpath) = d.derived_from.as_ref() {
-            derive_enumerated_values(ev, dpath, &epath.field, index)
+            derive_enumerated_values_chain(ev, dpath, &epath.field, index, visited)
         } else {
             Ok(epath)
         }
@@ -633,11 +684,22 @@ pub fn derive_peripheral(
     dpath: &str,
     index: &Index,
 ) -> Result<Option<BlockPath>> {
-    if dpath == &p.name {
-        return Err(anyhow!("Peripheral {dpath} is self-derived"));
-    }
+    let mut visited = vec![BlockPath::new(&p.name)];
+    derive_peripheral_chain(p, dpath, index, &mut visited)
+}
+
+fn derive_peripheral_chain(
+    p: &mut Peripheral,
+    dpath: &str,
+    index: &Index,
+    visited: &mut Vec<BlockPath>,
+) -> Result<Option<BlockPath>> {
     let mut path = None;
     let derpath = BlockPath::new(dpath);
+    if visited.contains(&derpath) {
+        return Err(anyhow!("Peripheral {dpath} is self-derived"));
+    }
+    visited.push(derpath.clone());
     let d = index
         .peripherals
         .get(&derpath)
@@ -647,7 +709,7 @@ pub fn derive_peripheral(
     }
     *p = p.derive_from(d);
     if let Some(dpath) = d.derived_from.as_ref() {
-        path = derive_peripheral(p, dpath, index)?;
+        path = derive_peripheral_chain(p, dpath, index, visited)?.or(path);
     }
     Ok(path)
 }
-- 
2.43.0


From 178eed74013296925e11326444385187b53cf428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:52 +0000
Subject: [PATCH 10/16] fix: report an incomplete field derivedFrom path
 instead of panicking

---
 svd-parser/src/expand.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index a482727..1f538a8 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -493,7 +493,11 @@ fn derive_field_chain(
     index: &Index,
     visited: &mut Vec<FieldPath>,
 ) -> Result<Option<FieldPath>> {
-    let (dregister, dname) = FieldPath::parse_str(dpath);
+    let v: Vec<&str> = dpath.split('.').collect();
+    if v.len() == 2 {
+        return Err(anyhow!("Full qualifying field path is expected: {dpath}"));
+    }
+    let (dregister, dname) = FieldPath::parse_vec(v);
     let rdpath;
     let field_path;
     if let Some(dregister) = dregister {
-- 
2.43.0


From 54b82323090f2cfd52edbebff6458a6ed49215fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:08 +0000
Subject: [PATCH 11/16] fix: report clusters derived from a cluster they are
 part of instead of recursing forever

---
 svd-parser/src/expand.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/svd-parser/src/expand.rs b/svd-parser/src/expand.rs
index 1f538a8..e410bef 100644
--- a/svd-parser/src/expand.rs
+++ b/svd-parser/src/expand.rs
@@ -346,9 +346,10 @@ fn expand_register_cluster(
     rc: RegisterCluster,
     path: &BlockPath,
     index: &Index,
+    active: &mut Vec<BlockPath>,
 ) -> Result<()> {
     match rc {
-        RegisterCluster::Cluster(c) => expand_cluster_array(regs, c, path, index)?,
+        RegisterCluster::Cluster(c) => expand_cluster_array(regs, c, path, index, active)?,
         RegisterCluster::Register(r) => expand_register_array(regs, r, path, index)?,
     }
     Ok(())
@@ -359,6 +360,7 @@ fn expand_cluster_array(
     mut c: Cluster,
     path: &BlockPath,
     index: &Index,
+    active: &mut Vec<BlockPath>,
 ) -> Result<()> {
     let mut cpath = None;
     let dpath = c.derived_from.take();
@@ -367,9 +369,16 @@ fn expand_cluster_array(
     }
     let cpath = cpath.unwrap_or_else(|| path.new_cluster(&c.name));
 
+    if active.contains(&cpath) {
+        return Err(anyhow!(
+            "Cluster {cpath} is derived from a cluster it is part of"
+        ));
+    }
+    active.push(cpath.clone());
     for rc in take(&mut c.children) {
-        expand_register_cluster(&mut c.children, rc, &cpath, index)?;
+        expand_register_cluster(&mut c.children, rc, &cpath, index, active)?;
     }
+    active.pop();
 
     match c {
         Cluster::Single(c) => expand_cluster(regs, c),
@@ -735,7 +744,7 @@ pub fn expand(indevice: &Device) -> Result<Device> {
         let path = path.unwrap_or_else(|| BlockPath::new(&p.name));
         if let Some(regs) = p.registers.as_mut() {
             for rc in take(regs) {
-                expand_register_cluster(regs, rc, &path, &index)?;
+                expand_register_cluster(regs, rc, &path, &index, &mut Vec::new())?;
             }
         }
         match p {
-- 
2.43.0


From ccfa97e835cadd65b258cf466e6a33e767e0ca2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:03 +0000
Subject: [PATCH 12/16] fix: msb of a bit range that ends at bit u32::MAX does
 not overflow

---
 svd-rs/src/bitrange.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svd-rs/src/bitrange.rs b/svd-rs/src/bitrange.rs
index 9bdcf08..95bbeaa 100644
--- a/svd-rs/src/bitrange.rs
+++ b/svd-rs/src/bitrange.rs
@@ -37,7 +37,7 @@ impl BitRange {
     }
     /// Get the position of the most significant bit
     pub fn msb(&self) -> u32 {
-        self.offset + self.width - 1
+        self.offset.wrapping_add(self.width).wrapping_sub(1)
     }
     /// Get the bit range in the format `[<msb>:<lsb>]`
     pub fn bit_range(&self) -> String {
-- 
2.43.0


From 8b046f3aa2bd9d547d6f1bb314c04df270697ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:03 +0000
Subject: [PATCH 13/16] fix: BitRange::from_bit_range rejects texts with more
 than two parts

---
 svd-rs/src/bitrange.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svd-rs/src/bitrange.rs b/svd-rs/src/bitrange.rs
index 95bbeaa..911c465 100644
--- a/svd-rs/src/bitrange.rs
+++ b/svd-rs/src/bitrange.rs
@@ -68,6 +68,9 @@ impl BitRange {
         let mut parts = text[1..text.len() - 1].split(':');
         let msb = parts.next()?.parse::<u32>().ok()?;
         let lsb = parts.next()?.parse::<u32>().ok()?;
+        if parts.next().is_some() {
+            return None;
+        }
         Some(Self {
             offset: lsb,
             width: msb.checked_sub(lsb)?.checked_add(1)?,
-- 
2.43.0


From 93e518a9dfdbcd7a16c85c4b15890f3a9f588d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:31 +0000
Subject: [PATCH 14/16] fix: report bitRange texts with more than two parts

---
 svd-parser/src/bitrange.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/svd-parser/src/bitrange.rs b/svd-parser/src/bitrange.rs
index f77464e..5211502 100644
--- a/svd-parser/src/bitrange.rs
+++ b/svd-parser/src/bitrange.rs
@@ -31,7 +31,7 @@ impl Parse for BitRange {
                 }
 
                 let mut parts = text[1..text.len() - 1].split(':');
-                (
+                let range = (
                     parts
                         .next()
                         .ok_or_else(|| {
@@ -51,7 +51,11 @@ impl Parse for BitRange {
                             SVDError::InvalidBitRange(InvalidBitRange::ParseError).at(tree.id())
                         })?,
                     BitRangeType::BitRange,
-                )
+                );
+                if parts.next().is_some() {
+                    return Err(SVDError::InvalidBitRange(InvalidBitRange::Syntax).at(tree.id()));
+                }
+                range
             // TODO: Consider matching instead so we can say which of these tags are missing
             } else if let (Some(lsb), Some(msb)) = (tree.get_child("lsb"), tree.get_child("msb")) {
                 (
-- 
2.43.0


From 3f438baf20d40ea06f6a20f736b465b6197af616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:08 +0000
Subject: [PATCH 15/16] fix: report a bitOffset and bitWidth whose last bit
 does not fit u32

---
 svd-parser/src/bitrange.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/svd-parser/src/bitrange.rs b/svd-parser/src/bitrange.rs
index 5211502..010cfd7 100644
--- a/svd-parser/src/bitrange.rs
+++ b/svd-parser/src/bitrange.rs
@@ -73,15 +73,20 @@ impl Parse for BitRange {
             {
                 // Special case because offset and width are directly provided
                 // (ie. do not need to be calculated as in the final step)
+                // TODO: capture that error comes from offset/width tag
+                // TODO: `u32::parse` should not hide it's errors
+                let offset = u32::parse(&offset, &()).map_err(|_| {
+                    SVDError::InvalidBitRange(InvalidBitRange::ParseError).at(tree.id())
+                })?;
+                let width = u32::parse(&width, &()).map_err(|_| {
+                    SVDError::InvalidBitRange(InvalidBitRange::ParseError).at(tree.id())
+                })?;
+                if offset.checked_add(width.saturating_sub(1)).is_none() {
+                    return Err(SVDError::InvalidBitRange(InvalidBitRange::Size).at(tree.id()));
+                }
                 return Ok(BitRange {
-                    // TODO: capture that error comes from offset/width tag
-                    // TODO: `u32::parse` should not hide it's errors
-                    offset: u32::parse(&offset, &()).map_err(|_| {
-                        SVDError::InvalidBitRange(InvalidBitRange::ParseError).at(tree.id())
-                    })?,
-                    width: u32::parse(&width, &()).map_err(|_| {
-                        SVDError::InvalidBitRange(InvalidBitRange::ParseError).at(tree.id())
-                    })?,
+                    offset,
+                    width,
                     range_type: BitRangeType::OffsetWidth,
                 });
             } else {
-- 
2.43.0


From 9b7b43e8c100a2f3b6d544668d6d5ed0e8d4e624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:36 +0000
Subject: [PATCH 16/16] fix: clear an interrupt's description when modified
 with empty text

As every other element does: an empty text in a modification clears the optional property.
---
 svd-rs/src/interrupt.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svd-rs/src/interrupt.rs b/svd-rs/src/interrupt.rs
index 1651530..c2acbb8 100644
--- a/svd-rs/src/interrupt.rs
+++ b/svd-rs/src/interrupt.rs
@@ -1,4 +1,4 @@
-use super::{BuildError, Description, Name, SvdError, ValidateLevel};
+use super::{BuildError, Description, EmptyToNone, Name, SvdError, ValidateLevel};
 
 /// Describes an interrupt in the device
 #[cfg_attr(feature = "serde", derive(serde::Deserialize, serde::Serialize))]
@@ -84,7 +84,7 @@ impl Interrupt {
             self.name = name;
         }
         if builder.description.is_some() {
-            self.description = builder.description;
+            self.description = builder.description.empty_to_none();
         }
         if let Some(value) = builder.value {
             self.value = value;
-- 
2.43.0

