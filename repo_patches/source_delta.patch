From 9ff2c2d58af2b5ec73aefaeddd15d8bddf7c6e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:43 +0000
Subject: [PATCH 01/45] fix: a definition replaces an earlier undefined
 reference, never the reverse

add_symbol copied only st_shndx when a definition met an earlier undefined
reference of the same binding, so the symbol kept value 0, and let a strong
undefined reference erase a weak definition.
---
 src/elf/symbol_table.rs | 11 ++++++++---
 src/symbol.rs           |  4 ++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 9cee311..fdcdf96 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -112,14 +112,19 @@ impl<'p> SymbolTable<'p> {
                     );
                     return Err(Error::AlreadyDefined(old_sym.reference().into()));
                 }
-                if !old_sym.higher_bind_than(new_sym) {
+                // a definition always replaces a reference, and never the other way around
+                let replace = match (old_sym.is_undefined(), new_sym.is_undefined()) {
+                    (true, false) => true,
+                    (false, true) => false,
+                    _ => !old_sym.higher_bind_than(new_sym),
+                };
+                if replace {
                     old_sym.st_info = new_sym.st_info;
                     old_sym.st_other = new_sym.st_other;
                     old_sym.st_shndx = new_sym.st_shndx;
                     old_sym.st_value = new_sym.st_value;
                     old_sym.st_size = new_sym.st_size;
-                } else if old_sym.st_shndx == SHN_UNDEF as u16 {
-                    old_sym.st_shndx = new_sym.st_shndx;
+                    old_sym.set_reference(reference);
                 }
             }
             Entry::Vacant(v) => {
diff --git a/src/symbol.rs b/src/symbol.rs
index fcabbf6..e7bed27 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -74,6 +74,10 @@ impl<'r> Symbol<'r> {
         self.reference
     }
 
+    pub fn set_reference(&mut self, reference: &'r Path) {
+        self.reference = reference;
+    }
+
     pub const fn got_offset(&self) -> Option<usize> {
         self.in_got
     }
-- 
2.43.0


From 610a8cf7a22abd276ebf3d7219ede7277a36e2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:30 +0000
Subject: [PATCH 02/45] fix: only the selected definition of a symbol
 contributes its address

A weak definition that lost stayed registered with its section, so the
section address was added to the symbol once per definition.
---
 src/elf.rs              | 27 ++++++++++++++++++++-------
 src/elf/chunk.rs        |  4 ++++
 src/elf/symbol_table.rs | 12 ++++++++----
 3 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 0f4416c..30b2aad 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -147,6 +147,8 @@ pub struct Writer<'d> {
     sections: Vec<SectionPtr<'d>>,
     got_len: usize,
     got_plt: HashMap<SymbolRef, usize>,
+    // where the definition of each symbol in `.symtab` lives
+    definitions: HashMap<SymbolRef, SectionRef<'d>>,
     dyn_entries: Vec<(DynTag, u64)>,
     program_headers: Vec<ProgramHeader>,
     p_vaddr: u64,
@@ -354,6 +356,7 @@ impl<'d> Writer<'d> {
             // first entry reserved
             got_len: 1,
             got_plt: Default::default(),
+            definitions: Default::default(),
             dyn_entries: vec![(DynTag::Needed, interp_entry.offset as u64)],
             program_headers: vec![],
             p_vaddr: 0x200000,
@@ -430,11 +433,12 @@ impl<'d> Writer<'d> {
 
     fn add_symbol_inner<'s>(
         mut elf_sym: Sym,
-        section: Option<SectionRef>,
+        section: Option<SectionRef<'d>>,
         name: &'s str,
         reference: &'d Path,
         symbol_names: &mut StringTable,
         symbols: &mut SymbolTable<'d>,
+        definitions: &mut HashMap<SymbolRef, SectionRef<'d>>,
     ) -> Result<SymbolRef, ErrorType> {
         let name: Name = name.to_string().into();
         let hash = name.elf_hash();
@@ -442,12 +446,19 @@ impl<'d> Writer<'d> {
         let st_name = symbol_names.get_or_create(name.clone()).offset as u32;
         elf_sym.st_name = st_name;
         log::trace!("name: '{}' -> sym: {:?}", &name as &str, elf_sym);
-        let r = symbols
+        let (r, taken) = symbols
             .add_symbol(elf_sym, hash, gnu_hash, reference)
             .map_err(|e| ErrorType::Other(format!("{} {}", &name as &str, e)))?;
-        if let Some(section_ref) = section {
-            if elf_sym.st_shndx != SHN_ABS as u16 {
-                section_ref.section.write().chunk_mut(section_ref.chunk).add_symbol(r);
+        if taken {
+            // only the chunk of the definition we picked gets to patch the value of the symbol
+            if let Some(old) = definitions.remove(&r) {
+                old.section.write().chunk_mut(old.chunk).remove_symbol(r);
+            }
+            if let Some(section_ref) = section {
+                if elf_sym.st_shndx != SHN_ABS as u16 {
+                    section_ref.section.write().chunk_mut(section_ref.chunk).add_symbol(r);
+                    definitions.insert(r, section_ref);
+                }
             }
         }
         Ok(r)
@@ -456,7 +467,7 @@ impl<'d> Writer<'d> {
     pub fn add_symbol<'s>(
         &mut self,
         elf_sym: Sym,
-        sec_ref: Option<SectionRef>,
+        sec_ref: Option<SectionRef<'d>>,
         name: &'s str,
         reference: &'d Path,
     ) -> Result<Option<SymbolRef>, ErrorType> {
@@ -467,6 +478,7 @@ impl<'d> Writer<'d> {
             reference,
             self.sym_str_section.write().inner_mut::<StringTable>().unwrap(),
             self.sym_section.write().inner_mut::<SymbolTable<'d>>().unwrap(),
+            &mut self.definitions,
         )
         .map(Some)
     }
@@ -474,7 +486,7 @@ impl<'d> Writer<'d> {
     pub fn add_dyn_symbol<'s>(
         &mut self,
         mut elf_sym: Sym,
-        sec_ref: Option<SectionRef>,
+        sec_ref: Option<SectionRef<'d>>,
         name: &'s str,
         reference: &'d Path,
     ) -> Result<Option<SymbolRef>, ErrorType> {
@@ -487,6 +499,7 @@ impl<'d> Writer<'d> {
             reference,
             self.dyn_sym_str_section.write().inner_mut::<StringTable>().unwrap(),
             self.dyn_sym_section.write().inner_mut::<SymbolTable<'d>>().unwrap(),
+            &mut HashMap::new(),
         );
         if let Ok(dyn_ref) = r {
             if let Some(entry) =
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index c0ab8c0..40fa35d 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -24,6 +24,10 @@ impl Chunk {
         self.symbols.insert(sym_ref);
     }
 
+    pub fn remove_symbol(&mut self, sym_ref: SymbolRef) {
+        self.symbols.remove(&sym_ref);
+    }
+
     pub fn add_relocation(&mut self, reloc: Rela, sym_ref: SymbolRef) {
         self.relocations.push((reloc, sym_ref));
     }
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index fdcdf96..ef46c41 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -76,13 +76,15 @@ impl<'p> SymbolTable<'p> {
         Self { is_dynamic, ..Default::default() }
     }
 
+    /// Adds a symbol to the table, and returns a reference to it, together with whether `elf_sym`
+    /// is what the reference now stands for (as opposed to a previously added symbol).
     pub fn add_symbol(
         &mut self,
         elf_sym: Sym,
         hash: u32,
         gnu_hash: u32,
         reference: &'p Path,
-    ) -> Result<SymbolRef, Error> {
+    ) -> Result<(SymbolRef, bool), Error> {
         let st_name = elf_sym.st_name;
         let st_type = st_type(elf_sym.st_info);
         let new_sym = Symbol::new(elf_sym, hash, gnu_hash, reference);
@@ -94,9 +96,9 @@ impl<'p> SymbolTable<'p> {
                 .or_insert_with(|| vec![new_sym])
                 .len()
                 - 1;
-            return Ok(SymbolRef::Section(elf_sym.st_shndx, len));
+            return Ok((SymbolRef::Section(elf_sym.st_shndx, len), true));
         }
-        match self.symbols.entry(st_name) {
+        let taken = match self.symbols.entry(st_name) {
             Entry::Occupied(mut s) => {
                 let old_sym = s.get_mut();
                 // we found another definition of this global symbol
@@ -126,15 +128,17 @@ impl<'p> SymbolTable<'p> {
                     old_sym.st_size = new_sym.st_size;
                     old_sym.set_reference(reference);
                 }
+                replace
             }
             Entry::Vacant(v) => {
                 if new_sym.is_local() {
                     self.num_locals += 1;
                 }
                 v.insert(new_sym);
+                true
             }
         };
-        Ok(SymbolRef::Named(st_name))
+        Ok((SymbolRef::Named(st_name), taken))
     }
 
     pub fn get(&self, s: SymbolRef) -> Option<&Symbol<'_>> {
-- 
2.43.0


From bff73e3fdcfbef3bab2fbf4b4f5b4fe1b46c286f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:12 +0000
Subject: [PATCH 03/45] fix: keep local symbols of different object files apart

Locals were merged by name, so equally named statics of two objects became
one symbol (and sh_info of .symtab could overcount locals).
---
 src/elf.rs              | 12 +++++++++---
 src/elf/symbol_table.rs | 21 ++++++++++++++++++---
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 30b2aad..bf254a9 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -700,7 +700,9 @@ impl<'d> Writer<'d> {
                 if let Some(s) = symbol_names.get("__init_array_end") {
                     let sym_ref = SymbolRef::Named(s.offset as u32);
                     let mut symbols = as_mut_sym_tab(&self.sym_section);
-                    symbols.get_mut(sym_ref).unwrap().st_value = section.size_on_disk();
+                    if let Some(sym) = symbols.get_mut(sym_ref) {
+                        sym.st_value = section.size_on_disk();
+                    }
                     let chunk_index = section.last_chunk_index();
                     section.chunk_mut(chunk_index).add_symbol(sym_ref);
                 }
@@ -711,7 +713,9 @@ impl<'d> Writer<'d> {
                 if let Some(s) = symbol_names.get("__fini_array_end") {
                     let sym_ref = SymbolRef::Named(s.offset as u32);
                     let mut symbols = as_mut_sym_tab(&self.sym_section);
-                    symbols.get_mut(sym_ref).unwrap().st_value = section.size_on_disk();
+                    if let Some(sym) = symbols.get_mut(sym_ref) {
+                        sym.st_value = section.size_on_disk();
+                    }
                     let chunk_index = section.last_chunk_index();
                     section.chunk_mut(chunk_index).add_symbol(sym_ref);
                 }
@@ -944,7 +948,9 @@ impl<'d> Writer<'d> {
             self.sym_str_section.read().inner::<StringTable>().unwrap().get("_start")
         {
             let symbols = as_sym_tab(&self.sym_section);
-            self.eh.e_entry = symbols[SymbolRef::Named(entry.offset as u32)].st_value;
+            if let Some(start) = symbols.get(SymbolRef::Named(entry.offset as u32)) {
+                self.eh.e_entry = start.st_value;
+            }
         }
         self.eh.e_shnum = self.sections.len() as u16;
         self.eh.e_phnum = self.program_headers.len() as u16;
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index ef46c41..2ebfa79 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -24,6 +24,8 @@ pub enum SymbolRef {
     Named(u32),
     // section + number
     Section(u16, usize),
+    // local symbols are private to their object file, thus we only number them
+    Local(usize),
 }
 
 impl SymbolRef {
@@ -47,6 +49,7 @@ pub enum Error {
 pub struct SymbolTable<'p> {
     symbols: HashMap<u32, Symbol<'p>>,
     section_syms: HashMap<u16, Vec<Symbol<'p>>>,
+    local_syms: Vec<Symbol<'p>>,
     num_locals: usize,
     is_dynamic: bool,
 }
@@ -56,6 +59,7 @@ impl Default for SymbolTable<'_> {
         let mut table = Self {
             symbols: Default::default(),
             section_syms: Default::default(),
+            local_syms: Default::default(),
             num_locals: 0,
             is_dynamic: false,
         };
@@ -98,6 +102,12 @@ impl<'p> SymbolTable<'p> {
                 - 1;
             return Ok((SymbolRef::Section(elf_sym.st_shndx, len), true));
         }
+        // every object file has a null symbol, but we only need one of them
+        if new_sym.is_local() && (st_name != 0 || !new_sym.is_undefined()) {
+            self.num_locals += 1;
+            self.local_syms.push(new_sym);
+            return Ok((SymbolRef::Local(self.local_syms.len() - 1), true));
+        }
         let taken = match self.symbols.entry(st_name) {
             Entry::Occupied(mut s) => {
                 let old_sym = s.get_mut();
@@ -145,6 +155,7 @@ impl<'p> SymbolTable<'p> {
         match s {
             SymbolRef::Named(n) => self.symbols.get(&n),
             SymbolRef::Section(s, i) => self.section_syms.get(&s).map(|s| &s[i]),
+            SymbolRef::Local(i) => self.local_syms.get(i),
         }
     }
 
@@ -152,17 +163,20 @@ impl<'p> SymbolTable<'p> {
         match s {
             SymbolRef::Named(n) => self.symbols.get_mut(&n),
             SymbolRef::Section(s, i) => self.section_syms.get_mut(&s).map(|s| &mut s[i]),
+            SymbolRef::Local(i) => self.local_syms.get_mut(i),
         }
     }
 
     pub fn sorted(&self) -> Vec<&Symbol<'p>> {
-        let mut syms: Vec<&Symbol<'p>> = self.symbols.values().collect();
+        let mut syms: Vec<&Symbol<'p>> =
+            self.symbols.values().chain(self.local_syms.iter()).collect();
         syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
         syms
     }
 
     pub fn sorted_mut(&mut self) -> Vec<&mut Symbol<'p>> {
-        let mut syms: Vec<&mut Symbol<'p>> = self.symbols.values_mut().collect();
+        let mut syms: Vec<&mut Symbol<'p>> =
+            self.symbols.values_mut().chain(self.local_syms.iter_mut()).collect();
         syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
         syms
     }
@@ -176,7 +190,7 @@ impl<'p> SymbolTable<'p> {
     }
 
     pub fn total_len(&self) -> usize {
-        self.symbols.len() * size_of::<Sym>()
+        (self.symbols.len() + self.local_syms.len()) * size_of::<Sym>()
     }
 
     pub fn chunk(&self) -> Chunk {
@@ -267,6 +281,7 @@ impl<'s> Index<SymbolRef> for SymbolTable<'s> {
         match index {
             SymbolRef::Named(n) => &self.symbols[&n],
             SymbolRef::Section(s, i) => &self.section_syms[&s][i],
+            SymbolRef::Local(i) => &self.local_syms[i],
         }
     }
 }
-- 
2.43.0


From 3d6d6155573c06d2b9593d447d28aa84fb8a9278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:27 +0000
Subject: [PATCH 04/45] fix: tell equally named local symbols of one object
 apart by value

Relocations find their symbol by comparing symbols; without st_value two
same-sized, same-named locals of an 'ld -r' object were conflated.
---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 7dbd032..60cd60e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -34,6 +34,7 @@ impl PartialEq for Symbol {
             && self.0.st_info == s2.0.st_info
             && self.0.st_other == s2.0.st_other
             && self.0.st_shndx == s2.0.st_shndx
+            && self.0.st_value == s2.0.st_value
             && self.0.st_size == s2.0.st_size
     }
 }
@@ -46,6 +47,7 @@ impl Hash for Symbol {
         self.0.st_info.hash(state);
         self.0.st_other.hash(state);
         self.0.st_shndx.hash(state);
+        self.0.st_value.hash(state);
         self.0.st_size.hash(state);
     }
 }
-- 
2.43.0


From b30035041d0ff0d6298c106a669aa2be664f01fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:41 +0000
Subject: [PATCH 05/45] fix: give every NOBITS input section its own storage

All .bss inputs after the first shared the address of the (empty) first
chunk, so variables of different objects overlapped.
---
 src/elf.rs         |  9 +++------
 src/elf/chunk.rs   | 14 +++++++++++++-
 src/elf/section.rs |  8 ++++----
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index bf254a9..baf3a4e 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -389,6 +389,7 @@ impl<'d> Writer<'d> {
     ) -> SectionRef<'d> {
         let entry =
             self.shstr_section.write().inner_mut::<StringTable>().unwrap().get_or_create(name);
+        let chunk = data.map_or_else(|| Chunk::nobits(sh.sh_size), Chunk::from);
         let (section, chunk) = if entry.new {
             let sh = SectionHeader {
                 sh_name: entry.offset as u32,
@@ -403,7 +404,7 @@ impl<'d> Writer<'d> {
                 sh_addr: 0,
                 sh_offset: 0,
             };
-            let sh = Section::builder(sh).with_chunk(data.unwrap_or_default()).build();
+            let sh = Section::builder(sh).with_chunk(chunk).build();
             self.sections.push(Arc::clone(&sh));
             (sh, 0)
         } else {
@@ -411,11 +412,7 @@ impl<'d> Writer<'d> {
             let mut section = self.sections[entry.index].write();
             section.sh_size += sh.sh_size;
             section.sh_addralign = std::cmp::max(section.sh_addralign, sh.sh_addralign);
-            let chunk = if let Some(data) = data {
-                section.add_chunk(Chunk::from(data))
-            } else {
-                section.last_chunk_index()
-            };
+            let chunk = section.add_chunk(chunk);
             (section_ptr, chunk)
         };
         SectionRef { section, chunk }
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 40fa35d..d3c4c49 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -11,13 +11,25 @@ use crate::elf::{plt_entry_addr, SymbolRef, SymbolTable};
 pub struct Chunk {
     address: Option<u64>,
     data: Vec<u8>,
+    /// How much memory the chunk takes up, which differs from `data.len()` for NOBITS.
+    size: u64,
     symbols: HashSet<SymbolRef>,
     relocations: Vec<(Rela, SymbolRef)>,
 }
 
 impl Chunk {
     pub fn new(data: Vec<u8>) -> Self {
-        Self { address: None, data, symbols: Default::default(), relocations: vec![] }
+        let size = data.len() as u64;
+        Self { address: None, data, size, symbols: Default::default(), relocations: vec![] }
+    }
+
+    /// A chunk which takes up memory, but has no data on disk.
+    pub fn nobits(size: u64) -> Self {
+        Self { size, ..Self::new(vec![]) }
+    }
+
+    pub fn size(&self) -> u64 {
+        self.size
     }
 
     pub fn add_symbol(&mut self, sym_ref: SymbolRef) {
diff --git a/src/elf/section.rs b/src/elf/section.rs
index 87e0655..b81b475 100644
--- a/src/elf/section.rs
+++ b/src/elf/section.rs
@@ -47,8 +47,8 @@ impl<'p> SectionBuilder<'p> {
         self
     }
 
-    pub fn with_chunk(mut self, data: Vec<u8>) -> Self {
-        self.section.chunks.push(data.into());
+    pub fn with_chunk(mut self, chunk: Chunk) -> Self {
+        self.section.chunks.push(chunk);
         self
     }
 
@@ -196,7 +196,7 @@ impl<'p> Section<'p> {
         let mut base_addr = self.sh_addr;
         for chunk in &mut self.chunks {
             chunk.set_address(base_addr);
-            base_addr += chunk.len() as u64;
+            base_addr += chunk.size();
         }
     }
 
@@ -214,7 +214,7 @@ impl<'p> Section<'p> {
                     }
                 }
             }
-            base_addr += chunk.len() as u64;
+            base_addr += chunk.size();
         }
     }
 
-- 
2.43.0


From f0f0367e7702dc3ed0f14757f74aeb0076253569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:01 +0000
Subject: [PATCH 06/45] fix: place sections without file contents at the end of
 their segment

A NOBITS section in front of PROGBITS ones made the addresses of the latter
disagree with where the loader maps their file contents.
---
 src/elf.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index baf3a4e..7132aa3 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -7,8 +7,8 @@ use goblin::elf64::{
     reloc::{r_type, Rela, *},
     section_header::{
         SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_WRITE, SHN_ABS, SHN_UNDEF, SHT_DYNAMIC,
-        SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_PROGBITS, SHT_RELA,
-        SHT_STRTAB,
+        SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS,
+        SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
     sym::Sym,
 };
@@ -1237,7 +1237,10 @@ fn section_cmp(s1: &SectionPtr, s2: &SectionPtr) -> Ordering {
     let s1 = s1.read();
     let s2 = s2.read();
     match s1.sh_flags.cmp(&s2.sh_flags) {
-        Ordering::Equal => s1.sh_addralign.cmp(&s2.sh_addralign).reverse(),
+        // sections without data on disk have to be at the end of their segment
+        Ordering::Equal => (s1.sh_type == SHT_NOBITS)
+            .cmp(&(s2.sh_type == SHT_NOBITS))
+            .then(s1.sh_addralign.cmp(&s2.sh_addralign).reverse()),
         // no flags should come last
         o => {
             if s1.sh_flags == 0 {
-- 
2.43.0


From 3bbaa1ba5785c9037186165963a7581dbd3afd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:28 +0000
Subject: [PATCH 07/45] fix: know the size of .copyrel before assigning
 addresses

It was laid out with size 0, overlapping whatever followed it.
---
 src/elf.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/elf.rs b/src/elf.rs
index 7132aa3..0569891 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -879,6 +879,7 @@ impl<'d> Writer<'d> {
                     self.plt_rels.push(rela(offset, index, R_X86_64_JUMP_SLOT));
                 }
             }
+            self.copy_rel_section.write().expand();
             self.dyn_rel_section.write().sh_size = (self.dyn_rels.len() * size_of::<Rela>()) as u64;
             self.plt_rel_section.write().sh_size = (self.plt_rels.len() * size_of::<Rela>()) as u64;
 
-- 
2.43.0


From 331233771c87260e2f4f9f4c96388823856ff179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:54 +0000
Subject: [PATCH 08/45] fix: honour the alignment of sections

Input sections were concatenated without padding, and only the first section
of each segment was placed on an aligned address; the PT_DYNAMIC/PT_INTERP
headers now use the address the section really got.
---
 src/elf.rs         | 22 +++++++++++++++++-----
 src/elf/section.rs | 16 +++++++++++++++-
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 0569891..2d83c70 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -410,6 +410,10 @@ impl<'d> Writer<'d> {
         } else {
             let section_ptr = Arc::clone(&self.sections[entry.index]);
             let mut section = self.sections[entry.index].write();
+            let padding = round_to(section.sh_size, sh.sh_addralign) - section.sh_size;
+            if padding != 0 {
+                section.add_padding(padding);
+            }
             section.sh_size += sh.sh_size;
             section.sh_addralign = std::cmp::max(section.sh_addralign, sh.sh_addralign);
             let chunk = section.add_chunk(chunk);
@@ -1039,7 +1043,6 @@ impl<'d> Writer<'d> {
         let mut flags = 0;
         let mut program_header = None;
         for sh in self.sections.iter_mut().skip(1) {
-            let old_p_vaddr = self.p_vaddr;
             let mut sh = sh.write();
             if sh.sh_flags != flags {
                 // push old program header
@@ -1060,6 +1063,15 @@ impl<'d> Writer<'d> {
                 }
                 flags = sh.sh_flags;
             } else {
+                if let Some(ph) = program_header.as_mut() {
+                    let padding = round_to(self.p_vaddr, sh.sh_addralign) - self.p_vaddr;
+                    if sh.sh_type != SHT_NOBITS {
+                        self.file_offset += padding;
+                        ph.p_filesz += padding;
+                    }
+                    ph.p_memsz += padding;
+                    self.p_vaddr += padding;
+                }
                 sh.sh_offset = post_inc(&mut self.file_offset, sh.size_on_disk());
                 if let Some(ph) = program_header.as_mut() {
                     ph.p_filesz += sh.size_on_disk();
@@ -1081,8 +1093,8 @@ impl<'d> Writer<'d> {
                         p_flags: PF_R | write,
                         p_align: sh.sh_addralign,
                         p_offset: sh.sh_offset,
-                        p_vaddr: old_p_vaddr,
-                        p_paddr: old_p_vaddr,
+                        p_vaddr: sh.sh_addr,
+                        p_paddr: sh.sh_addr,
                         p_filesz: sh.size_on_disk(),
                         p_memsz: sh.sh_size,
                     },
@@ -1138,10 +1150,10 @@ fn get_load_program_header(
 ) -> Option<ProgramHeader> {
     if sh.sh_flags as u32 & SHF_ALLOC == SHF_ALLOC {
         let first_load = extra_data.is_some();
-        let extra_data = extra_data.take().unwrap_or_default();
+        let extra_data = round_to(extra_data.take().unwrap_or_default(), sh.sh_addralign);
         let write = if sh.sh_flags as u32 & SHF_WRITE == SHF_WRITE { PF_W } else { 0 };
         let exec = if sh.sh_flags as u32 & SHF_EXECINSTR == SHF_EXECINSTR { PF_X } else { 0 };
-        *p_vaddr = round_to(*p_vaddr, PAGE_ALIGNMENT);
+        *p_vaddr = round_to(*p_vaddr, std::cmp::max(PAGE_ALIGNMENT, sh.sh_addralign));
         sh.set_address(*p_vaddr + extra_data);
         *file_offset = round_to(*file_offset, PAGE_ALIGNMENT);
         let sh_size_on_disk = sh.size_on_disk() + extra_data;
diff --git a/src/elf/section.rs b/src/elf/section.rs
index b81b475..74f0a28 100644
--- a/src/elf/section.rs
+++ b/src/elf/section.rs
@@ -6,7 +6,7 @@ use crate::elf::{
     SymbolRef,
 };
 
-use goblin::elf64::section_header::{SectionHeader, SHT_NOBITS};
+use goblin::elf64::section_header::{SectionHeader, SHF_EXECINSTR, SHT_NOBITS};
 use parking_lot::RwLock;
 use std::sync::Arc;
 
@@ -167,6 +167,20 @@ impl<'p> Section<'p> {
         self.chunks.len() - 1
     }
 
+    /// Grows the section by `size` bytes, which don't belong to any input.
+    pub fn add_padding(&mut self, size: u64) {
+        let chunk = if self.sh_type == SHT_NOBITS {
+            Chunk::nobits(size)
+        } else if self.sh_flags & SHF_EXECINSTR as u64 != 0 {
+            // nop
+            Chunk::new(vec![0x90; size as usize])
+        } else {
+            Chunk::new(vec![0; size as usize])
+        };
+        self.add_chunk(chunk);
+        self.sh_size += size;
+    }
+
     pub fn last_chunk_index(&self) -> usize {
         self.chunks.len() - 1
     }
-- 
2.43.0


From 056e23ec5a20da2665b8f6408d6cc7a8060391c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:14 +0000
Subject: [PATCH 09/45] fix: search library directories in command line order,
 first match wins

The directories lived in a HashSet, and a match did not stop the search, so
which library got linked was arbitrary.
---
 src/main.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 45d6b40..595bd5d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -32,7 +32,7 @@ struct AppArgs {
     opts: Options,
     objects: Vec<PathBuf>,
     archives: HashSet<PathBuf>,
-    search_paths: HashSet<PathBuf>,
+    search_paths: Vec<PathBuf>,
     scripts: Vec<PathBuf>,
     inputs: Vec<(PathBuf, bool)>,
     help: bool,
@@ -148,7 +148,7 @@ fn handle_linker_args(
             "-L" => {
                 let path =
                     args.next().ok_or_else(|| "Missing argument <PATH> for '-L'.".to_string())?;
-                app.search_paths.insert(path.into());
+                app.search_paths.push(path.into());
                 continue;
             }
             "-l" => {
@@ -179,7 +179,7 @@ fn handle_linker_args(
             }
         }
         if let Some(arg) = arg.strip_prefix("-L") {
-            app.search_paths.insert(PathBuf::from(arg).canonicalize().unwrap());
+            app.search_paths.push(PathBuf::from(arg).canonicalize().unwrap());
         } else if let Some(lib) = arg.strip_prefix("-l") {
             app.inputs.push((lib.into(), app.as_needed));
         } else if let Some(arg) = arg.strip_prefix("--hash-style=") {
@@ -210,6 +210,7 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
                 let input = dir.join(format!("lib{}.{}", lib.display(), kind));
                 if input.exists() && input.is_file() {
                     found = Some(input);
+                    break;
                 }
             }
         }
-- 
2.43.0


From d7d5fd6ff4c20a3cb6cac1ba57f672ff223ab6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:34 +0000
Subject: [PATCH 10/45] fix: make the output independent of hash seeds

Symbols, undefined references and archives were visited in HashMap/HashSet
order, so linking the same inputs twice gave different files (and could pick
different archives).
---
 src/elf/symbol_table.rs | 10 +++++-----
 src/lib.rs              | 10 +++++-----
 src/main.rs             |  9 ++++++---
 3 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 2ebfa79..50f698c 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -10,7 +10,7 @@ use goblin::elf64::{
 use std::ops::Index;
 use std::{
     cmp::Ordering,
-    collections::{hash_map::Entry, HashMap},
+    collections::{btree_map::Entry, BTreeMap, HashMap},
     mem::size_of,
     path::{Path, PathBuf},
 };
@@ -19,7 +19,7 @@ use thiserror::Error;
 use super::section::{Synthesized, SynthesizedKind};
 
 /// A symbol can be fetched by indexing `symbols` in the following way: `symbols[st_name]`.
-#[derive(Debug, Clone, Copy, Hash, PartialEq, Eq)]
+#[derive(Debug, Clone, Copy, Hash, PartialEq, Eq, PartialOrd, Ord)]
 pub enum SymbolRef {
     Named(u32),
     // section + number
@@ -47,7 +47,7 @@ pub enum Error {
 
 #[derive(Debug)]
 pub struct SymbolTable<'p> {
-    symbols: HashMap<u32, Symbol<'p>>,
+    symbols: BTreeMap<u32, Symbol<'p>>,
     section_syms: HashMap<u16, Vec<Symbol<'p>>>,
     local_syms: Vec<Symbol<'p>>,
     num_locals: usize,
@@ -205,11 +205,11 @@ impl<'p> SymbolTable<'p> {
         self.num_locals
     }
 
-    pub fn named(&self) -> &HashMap<u32, Symbol<'_>> {
+    pub fn named(&self) -> &BTreeMap<u32, Symbol<'_>> {
         &self.symbols
     }
 
-    pub fn named_mut(&mut self) -> &mut HashMap<u32, Symbol<'p>> {
+    pub fn named_mut(&mut self) -> &mut BTreeMap<u32, Symbol<'p>> {
         &mut self.symbols
     }
 
diff --git a/src/lib.rs b/src/lib.rs
index 60cd60e..b8f60b6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,7 +17,7 @@ use goblin::{
     },
 };
 use std::{
-    collections::{HashMap, HashSet},
+    collections::{BTreeMap, BTreeSet, HashMap},
     fs::read,
     hash::{Hash, Hasher},
     path::{Path, PathBuf},
@@ -149,7 +149,7 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
 pub struct Linker {
     pub options: crate::elf::Options,
     pub objects: Vec<PathBuf>,
-    pub archives: HashSet<PathBuf>,
+    pub archives: Vec<PathBuf>,
 }
 
 impl Linker {
@@ -159,7 +159,7 @@ impl Linker {
         writer: &mut elf::Writer<'o>,
     ) -> Result<Vec<elf::SymbolRef>, Error<'o>> {
         let mut undefines =
-            symbols.iter().map(|s| (*s, false)).collect::<HashMap<elf::SymbolRef, bool>>();
+            symbols.iter().map(|s| (*s, false)).collect::<BTreeMap<elf::SymbolRef, bool>>();
         for (lib, _) in &self.options.shared_libs {
             let path = lib.as_path();
             let data = read(path).map_path_err(path)?;
@@ -192,12 +192,12 @@ impl Linker {
         writer: &mut elf::Writer<'o>,
     ) -> Result<Vec<elf::SymbolRef>, Error<'o>> {
         let mut undefines =
-            symbols.iter().map(|s| (*s, false)).collect::<HashMap<elf::SymbolRef, bool>>();
+            symbols.iter().map(|s| (*s, false)).collect::<BTreeMap<elf::SymbolRef, bool>>();
         for ar in &self.archives {
             let path = ar.as_path();
             let data = read(path).map_path_err(path)?;
             let ar = Archive::parse(&data).map_path_err(path)?;
-            let mut members = HashSet::new();
+            let mut members = BTreeSet::new();
             for entry in &mut undefines {
                 let name = if let Some(name) = writer.symbol_name(*entry.0) {
                     name
diff --git a/src/main.rs b/src/main.rs
index 595bd5d..e6e1a0f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,6 +1,6 @@
 use dld::elf::{BuildId, Emulation, HashStyle, Options};
 use goblin::elf32::header::ET_DYN;
-use std::{collections::HashSet, io::Read, path::PathBuf, str::FromStr};
+use std::{io::Read, path::PathBuf, str::FromStr};
 
 mod linker_script;
 
@@ -31,7 +31,7 @@ OPTIONS:
 struct AppArgs {
     opts: Options,
     objects: Vec<PathBuf>,
-    archives: HashSet<PathBuf>,
+    archives: Vec<PathBuf>,
     search_paths: Vec<PathBuf>,
     scripts: Vec<PathBuf>,
     inputs: Vec<(PathBuf, bool)>,
@@ -221,7 +221,10 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
                     args.objects.push(lib.canonicalize().unwrap());
                 }
                 FileType::Archive => {
-                    args.archives.insert(lib.canonicalize().unwrap());
+                    let lib = lib.canonicalize().unwrap();
+                    if !args.archives.contains(&lib) {
+                        args.archives.push(lib);
+                    }
                 }
                 FileType::ElfSharedLib => args.opts.shared_libs.push((lib, as_needed)),
                 FileType::Text => args.scripts.push(lib),
-- 
2.43.0


From a0530558ad34138265767b05a572a2ac1615d9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:56 +0000
Subject: [PATCH 11/45] fix: refuse 32-bit relocations whose value does not fit

R_X86_64_32S truncated silently; R_X86_64_32 is zero-extended by the CPU, so
its range is that of u32.
---
 src/elf/chunk.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index d3c4c49..2f47939 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -133,11 +133,10 @@ fn apply_relocation(
         R_X86_64_NONE => {}
         R_X86_64_64 => (&mut data[offset..]).write_i64::<LittleEndian>(s + a).unwrap(),
         R_X86_64_32 => {
-            (&mut data[offset..]).write_i32::<LittleEndian>((s + a).try_into().unwrap()).unwrap();
+            (&mut data[offset..]).write_u32::<LittleEndian>((s + a).try_into().unwrap()).unwrap();
         }
         R_X86_64_32S => {
-            // TODO warn about truncation
-            (&mut data[offset..]).write_i32::<LittleEndian>((s + a) as i32).unwrap()
+            (&mut data[offset..]).write_i32::<LittleEndian>((s + a).try_into().unwrap()).unwrap()
         }
         R_X86_64_PC32 => (&mut data[offset..])
             .write_i32::<LittleEndian>((s + a - p).try_into().unwrap())
-- 
2.43.0


From 4b2365c0a26653bf99a96b3acb4b7037e8c4bd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:35 +0000
Subject: [PATCH 12/45] fix: R_X86_64_GOT32 is an offset from the GOT base, not
 PC relative

---
 src/elf.rs       | 9 ++++++++-
 src/elf/chunk.rs | 7 ++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 2d83c70..335b8f3 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -909,6 +909,7 @@ impl<'d> Writer<'d> {
     fn handle_relocations(&mut self) {
         let got_address = self.got_address();
         let plt_address = self.plt_address();
+        let got_plt_address = self.got_plt_address();
         let sh_names = [self.sym_section.read().sh_name, self.dyn_sym_section.read().sh_name];
 
         // first patch symbol values
@@ -924,7 +925,13 @@ impl<'d> Writer<'d> {
             &mut self.sections.iter_mut().skip(1).filter(|s| !sh_names.contains(&s.read().sh_name))
         {
             for chunk in section.write().chunks_mut() {
-                chunk.apply_relocations(got_address, plt_address, &symbols, &dyn_symbols);
+                chunk.apply_relocations(
+                    got_address,
+                    plt_address,
+                    got_plt_address,
+                    &symbols,
+                    &dyn_symbols,
+                );
             }
         }
     }
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 2f47939..eff810b 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -60,6 +60,7 @@ impl Chunk {
         &mut self,
         got_address: u64,
         plt_address: u64,
+        got_plt_address: u64,
         table: &SymbolTable,
         dyn_table: &SymbolTable,
     ) {
@@ -72,6 +73,7 @@ impl Chunk {
                 dyn_table,
                 got_address,
                 plt_address,
+                got_plt_address,
             );
         }
     }
@@ -113,6 +115,7 @@ fn apply_relocation(
     dyn_table: &SymbolTable,
     got_address: u64,
     plt_address: u64,
+    got_plt_address: u64,
 ) {
     // e.g. `stderr` will be undefined, but we might reference it. Since
     // `stderr` is an object, we will know its address at runtime because
@@ -143,8 +146,10 @@ fn apply_relocation(
             .unwrap(),
         R_X86_64_GOT32 => {
             let g: i64 = symbol.got_offset().unwrap().try_into().unwrap();
+            // relative to `_GLOBAL_OFFSET_TABLE_`, which is the start of `.got.plt`
+            let got_base: i64 = got_plt_address.try_into().unwrap();
             (&mut data[offset..])
-                .write_i32::<LittleEndian>((g + got + a - p).try_into().unwrap())
+                .write_i32::<LittleEndian>((g + got - got_base + a).try_into().unwrap())
                 .unwrap()
         }
         R_X86_64_GOTPCRELX if symbol.dynamic().is_none() => {
-- 
2.43.0


From 92a6ed0024c5cf23d0abffb0c27a84f04e74eec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:56 +0000
Subject: [PATCH 13/45] fix: fill the GOT slots of symbols defined in the
 output

Only the dynamic linker filled slots, so those of non dynamic symbols stayed
zero.
---
 src/elf.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index 335b8f3..48326aa 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -936,6 +936,24 @@ impl<'d> Writer<'d> {
         }
     }
 
+    fn fill_got(&mut self) {
+        use byteorder::{LittleEndian, WriteBytesExt};
+
+        let mut got_section = self.got_section.write();
+        let got_chunk_index = got_section.last_chunk_index();
+        let got_chunk = got_section.chunk_mut(got_chunk_index);
+        // the slots of dynamic symbols are filled by the dynamic linker
+        for sym in as_sym_tab(&self.sym_section)
+            .sorted()
+            .into_iter()
+            .filter(|sym| sym.dynamic().is_none() && !sym.is_tls())
+        {
+            if let Some(offset) = sym.got_offset() {
+                got_chunk[offset..].as_mut().write_u64::<LittleEndian>(sym.st_value).unwrap();
+            }
+        }
+    }
+
     // elf header
     // program header 1
     // program header 2
@@ -951,6 +969,8 @@ impl<'d> Writer<'d> {
 
         self.handle_relocations();
 
+        self.fill_got();
+
         self.compute_tables();
 
         if let Some(entry) =
-- 
2.43.0


From 75930629a5de5e55b20b1775e4741096f6e59dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:03 +0000
Subject: [PATCH 14/45] fix: apply relocations to the section named by sh_info

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b8f60b6..0d7d8f3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -122,9 +122,11 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
     pub fn process_relocations(&self, writer: &mut elf::Writer<'p>) -> Result<(), Error<'p>> {
         let elf = &self.elf;
         for (section_index, rels) in &elf.shdr_relocs {
+            // the section to which the relocations apply
+            let target = elf.section_headers[*section_index].sh_info as usize;
             for rel in rels.iter().filter(|r| r.r_sym != 0) {
                 let symbol = &elf.syms.get(rel.r_sym as usize).unwrap();
-                let index = if let Some(sec) = self.section_relocations.get(&(section_index - 1)) {
+                let index = if let Some(sec) = self.section_relocations.get(&target) {
                     sec.clone()
                 } else {
                     continue;
-- 
2.43.0


From 0e583eabd2ce694e151101abe198bee99176ca70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:50 +0000
Subject: [PATCH 15/45] fix: a library provides only what it defines, weak
 references may stay unresolved

---
 src/elf.rs |  4 ++++
 src/lib.rs | 18 ++++++++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 48326aa..43e8198 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -542,6 +542,10 @@ impl<'d> Writer<'d> {
         undefined
     }
 
+    pub fn is_weak(&self, sym: SymbolRef) -> bool {
+        matches!(as_sym_tab(&self.sym_section).get(sym), Some(s) if s.is_weak())
+    }
+
     pub fn add_relocation(
         &mut self,
         reloc: Rela,
diff --git a/src/lib.rs b/src/lib.rs
index 0d7d8f3..3d880bb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,8 +12,10 @@ use goblin::{
     elf64::{
         reloc::Rela,
         section_header::{
-            SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
+            SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB,
+            SHT_SYMTAB,
         },
+        sym::STB_LOCAL,
     },
 };
 use std::{
@@ -172,7 +174,12 @@ impl Linker {
                 } else {
                     continue;
                 };
-                for sym in &elf.dynsyms {
+                // a library only provides what it defines
+                for sym in elf
+                    .dynsyms
+                    .iter()
+                    .filter(|s| s.st_bind() != STB_LOCAL && s.st_shndx != SHN_UNDEF as usize)
+                {
                     let inner_name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
                     if name == inner_name {
                         *entry.1 = true;
@@ -200,7 +207,8 @@ impl Linker {
             let data = read(path).map_path_err(path)?;
             let ar = Archive::parse(&data).map_path_err(path)?;
             let mut members = BTreeSet::new();
-            for entry in &mut undefines {
+            // a weak reference is no reason to include a member
+            for entry in undefines.iter_mut().filter(|(s, _)| !writer.is_weak(**s)) {
                 let name = if let Some(name) = writer.symbol_name(*entry.0) {
                     name
                 } else {
@@ -263,7 +271,9 @@ impl Linker {
             }
         }
         writer.compute_sections();
-        let undefined = writer.undefined_symbols();
+        let mut undefined = writer.undefined_symbols();
+        // weak references don't have to be resolved, in which case they are zero
+        undefined.retain(|s| !writer.is_weak(*s));
         if !undefined.is_empty() {
             let names = undefined
                 .iter()
-- 
2.43.0


From 182591141b8bd3aed43c49bfaad6ab2dbcecca9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:16 +0000
Subject: [PATCH 16/45] fix: report linker scripts that cannot be read or
 parsed

---
 src/linker_script.rs | 9 ++++++---
 src/main.rs          | 4 +++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/linker_script.rs b/src/linker_script.rs
index afeb65b..66c6ab3 100644
--- a/src/linker_script.rs
+++ b/src/linker_script.rs
@@ -76,10 +76,13 @@ pub fn parse(mut input: &str) -> Result<Vec<String>, StringStreamError> {
         if let Some(args) = args {
             new_args.extend(args);
         }
-        if !leftover.is_empty() {
-            input = leftover;
-        } else {
+        if leftover.is_empty() {
             break;
+        } else if leftover.len() == input.len() {
+            // no parser recognises what comes next
+            return Err(StringStreamError::UnexpectedParse);
+        } else {
+            input = leftover;
         }
     }
     Ok(new_args)
diff --git a/src/main.rs b/src/main.rs
index e6e1a0f..dc7172a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -47,7 +47,9 @@ fn main() -> Result<(), String> {
         return Ok(());
     }
     while let Some(script) = args.scripts.pop() {
-        let new_args = linker_script::parse(&std::fs::read_to_string(script).unwrap()).unwrap();
+        let script_error = |e: &dyn std::fmt::Display| format!("`{}`: {}", script.display(), e);
+        let text = std::fs::read_to_string(&script).map_err(|e| script_error(&e))?;
+        let new_args = linker_script::parse(&text).map_err(|e| script_error(&e))?;
         if !new_args.is_empty() {
             handle_linker_args(&mut new_args.into_iter().peekable(), &mut args)?;
             let _ = search_for_inputs(&mut args);
-- 
2.43.0


From fb65c63ac5e9092e4cae9ec335426e27559dfc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:26 +0000
Subject: [PATCH 17/45] fix: report inputs of linker scripts that cannot be
 found

---
 src/main.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index dc7172a..be47faa 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -52,7 +52,7 @@ fn main() -> Result<(), String> {
         let new_args = linker_script::parse(&text).map_err(|e| script_error(&e))?;
         if !new_args.is_empty() {
             handle_linker_args(&mut new_args.into_iter().peekable(), &mut args)?;
-            let _ = search_for_inputs(&mut args);
+            find_inputs(&mut args)?;
         }
     }
     log::debug!("{:#?}", args);
@@ -97,10 +97,14 @@ fn parse_args() -> Result<AppArgs, String> {
     let _ = args.next();
     let mut app = Default::default();
     handle_linker_args(&mut args, &mut app)?;
-    search_for_inputs(&mut app).map_err(|e| format!("Couldn't find library {}", e.display()))?;
+    find_inputs(&mut app)?;
     Ok(app)
 }
 
+fn find_inputs(app: &mut AppArgs) -> Result<(), String> {
+    search_for_inputs(app).map_err(|e| format!("Couldn't find library {}", e.display()))
+}
+
 fn handle_linker_args(
     args: &mut std::iter::Peekable<impl std::iter::Iterator<Item = String>>,
     app: &mut AppArgs,
-- 
2.43.0


From d0b3368ab19e69f49b42dddfa5f9bc29ed9c85e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:27 +0000
Subject: [PATCH 18/45] fix: accept -L directories that do not exist

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index be47faa..e409f0f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -185,7 +185,7 @@ fn handle_linker_args(
             }
         }
         if let Some(arg) = arg.strip_prefix("-L") {
-            app.search_paths.push(PathBuf::from(arg).canonicalize().unwrap());
+            app.search_paths.push(arg.into());
         } else if let Some(lib) = arg.strip_prefix("-l") {
             app.inputs.push((lib.into(), app.as_needed));
         } else if let Some(arg) = arg.strip_prefix("--hash-style=") {
-- 
2.43.0


From 3d8ec6f3ecf81e9cbcdc74f84ff262e3656f184b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:52 +0000
Subject: [PATCH 19/45] fix: report inputs that are not object files

---
 src/lib.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3d880bb..8c2bcee 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -167,7 +167,7 @@ impl Linker {
         for (lib, _) in &self.options.shared_libs {
             let path = lib.as_path();
             let data = read(path).map_path_err(path)?;
-            let elf = Elf::parse(&data).unwrap();
+            let elf = Elf::parse(&data).map_path_err(path)?;
             for entry in undefines.iter_mut().filter(|(_, v)| !**v) {
                 let name = if let Some(name) = writer.symbol_name(*entry.0) {
                     name.to_string()
@@ -224,7 +224,10 @@ impl Linker {
                 let object_data =
                     &data[(object.offset as usize)..(object.offset as usize + object.size())];
                 let input = Input { path, data: object_data };
-                let mut elf = input.to_elf_object()?.unwrap();
+                let mut elf = input
+                    .to_elf_object()?
+                    .ok_or_else(|| format!("'{}' is not an object file.", member))
+                    .map_path_err(path)?;
                 elf.process_sections(writer)?;
                 elf.process_symbols(writer)?;
                 elf.process_relocations(writer)?;
@@ -250,10 +253,12 @@ impl Linker {
             .collect::<Result<Vec<Input>, Error<'_>>>()?;
         let mut elfs = Vec::with_capacity(inputs.len());
         for input in &inputs {
-            if let Some(mut elf) = input.to_elf_object()? {
-                elf.process_sections(&mut writer)?;
-                elfs.push(elf);
-            };
+            let mut elf = input
+                .to_elf_object()?
+                .ok_or_else(|| "Not an object file.".to_string())
+                .map_path_err(input.path)?;
+            elf.process_sections(&mut writer)?;
+            elfs.push(elf);
         }
         for elf in &mut elfs {
             elf.process_symbols(&mut writer)?;
-- 
2.43.0


From 70fdf6c6ba73353409dcb70bce8cdc156ec0ab02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:54 +0000
Subject: [PATCH 20/45] fix: handle --hash-style STYLE as documented

---
 src/main.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index e409f0f..b321841 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -144,6 +144,13 @@ fn handle_linker_args(
                 app.help = true;
                 continue;
             }
+            "--hash-style" => {
+                let style = args
+                    .next()
+                    .ok_or_else(|| "Missing argument <STYLE> for '--hash-style'.".to_string())?;
+                app.opts.hash_style = HashStyle::from_str(&style)?;
+                continue;
+            }
             "-dynamic-linker" => {
                 let linker = args
                     .next()
-- 
2.43.0


From 4d8bcd39f189e228c77f13eda37ed197ab27971e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:20 +0000
Subject: [PATCH 21/45] fix: group dynamic symbols by bucket of the GNU hash
 table

---
 src/elf/symbol_table.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 50f698c..84a36bd 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -170,14 +170,16 @@ impl<'p> SymbolTable<'p> {
     pub fn sorted(&self) -> Vec<&Symbol<'p>> {
         let mut syms: Vec<&Symbol<'p>> =
             self.symbols.values().chain(self.local_syms.iter()).collect();
-        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
+        let nbuckets = gnu_hash_buckets(syms.len());
+        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2, nbuckets));
         syms
     }
 
     pub fn sorted_mut(&mut self) -> Vec<&mut Symbol<'p>> {
         let mut syms: Vec<&mut Symbol<'p>> =
             self.symbols.values_mut().chain(self.local_syms.iter_mut()).collect();
-        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
+        let nbuckets = gnu_hash_buckets(syms.len());
+        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2, nbuckets));
         syms
     }
 
@@ -185,7 +187,8 @@ impl<'p> SymbolTable<'p> {
     /// st_name, and we want to know its index in the final symbol table.
     pub fn sorted_with_indexes(&mut self) -> HashMap<u32, (usize, &mut Symbol<'p>)> {
         let mut syms: Vec<&mut Symbol<'p>> = self.symbols.values_mut().collect();
-        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
+        let nbuckets = gnu_hash_buckets(syms.len());
+        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2, nbuckets));
         syms.into_iter().enumerate().map(|(i, s)| (s.st_name, (i, s))).collect()
     }
 
@@ -286,12 +289,19 @@ impl<'s> Index<SymbolRef> for SymbolTable<'s> {
     }
 }
 
-// local before global, then compare by gnu hash
-fn sort_symbols_func(s1: &Symbol, s2: &Symbol) -> Ordering {
+fn gnu_hash_buckets(len: usize) -> u32 {
+    len as u32 / 8 + 1
+}
+
+// local before global, then compare by bucket of the gnu hash table, then by gnu hash
+fn sort_symbols_func(s1: &Symbol, s2: &Symbol, nbuckets: u32) -> Ordering {
     let b1 = if s1.is_local() { 0 } else { 1 };
     let b2 = if s2.is_local() { 0 } else { 1 };
     match b1.cmp(&b2) {
-        Ordering::Equal => s1.gnu_hash().cmp(&s2.gnu_hash()),
+        Ordering::Equal => {
+            let key = |s: &Symbol| (s.gnu_hash() % nbuckets, s.gnu_hash());
+            key(s1).cmp(&key(s2))
+        }
         c => c,
     }
 }
@@ -398,7 +408,7 @@ impl GnuHashTable {
         let bits = (symbols.len() as u32 - 1) * 12;
         let bloom_size = (bits / elfclass_bits).next_power_of_two();
         let bloom_shift = 26;
-        let nbuckets: u32 = symbols.len() as u32 / 8 + 1;
+        let nbuckets = gnu_hash_buckets(symbols.len());
         // we always skip the first null symbol. For now, since we don't have
         // any locals in `.dynsym`, we can set this to 1, since we skip 1 symbol only.
         let symbol_offset = 1;
-- 
2.43.0


From 93efb7ce55dd1be1eff3e0ab7cf1ded694c86c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:41 +0000
Subject: [PATCH 22/45] fix: __init_array_end and __fini_array_end are relative
 to the whole section

---
 src/elf.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 43e8198..86f9e7a 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -708,8 +708,7 @@ impl<'d> Writer<'d> {
                     if let Some(sym) = symbols.get_mut(sym_ref) {
                         sym.st_value = section.size_on_disk();
                     }
-                    let chunk_index = section.last_chunk_index();
-                    section.chunk_mut(chunk_index).add_symbol(sym_ref);
+                    section.chunk_mut(0).add_symbol(sym_ref);
                 }
             } else if is_some_with(section_names.sh_name(".fini_array"), &section.sh_name) {
                 if let Some(s) = symbol_names.get("__fini_array_start") {
@@ -721,8 +720,7 @@ impl<'d> Writer<'d> {
                     if let Some(sym) = symbols.get_mut(sym_ref) {
                         sym.st_value = section.size_on_disk();
                     }
-                    let chunk_index = section.last_chunk_index();
-                    section.chunk_mut(chunk_index).add_symbol(sym_ref);
+                    section.chunk_mut(0).add_symbol(sym_ref);
                 }
             }
         }
-- 
2.43.0


From b5def14520f02c6bdc0f56f09c6951ce91afdffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:01 +0000
Subject: [PATCH 23/45] fix: keep section order in step with the section name
 table

---
 src/elf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elf.rs b/src/elf.rs
index 86f9e7a..11f7b85 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -323,6 +323,7 @@ impl<'d> Writer<'d> {
         let plt_rel_section =
             Section::builder(plt_rel_sh).link(Arc::clone(&dyn_sym_section)).build();
 
+        // in the order of their names in `.shstrtab`, see `Writer::add_section`
         let mut sections = vec![
             null_section,
             Arc::clone(&shstr_section),
@@ -337,7 +338,6 @@ impl<'d> Writer<'d> {
             Arc::clone(&dynamic_section),
             Arc::clone(&dyn_rel_section),
             Arc::clone(&plt_rel_section),
-            Arc::clone(&copy_rel_section),
         ];
 
         if let Some(s) = hash_section.clone() {
@@ -346,6 +346,7 @@ impl<'d> Writer<'d> {
         if let Some(s) = gnu_hash_section.clone() {
             sections.push(s)
         }
+        sections.push(Arc::clone(&copy_rel_section));
 
         Ok(Self {
             out,
-- 
2.43.0


From b79684e1be51ad5a379b9b86fab007b2d6663d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:25 +0000
Subject: [PATCH 24/45] fix: DT_NEEDED holds the DT_SONAME of a library

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8c2bcee..b42ed13 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -186,7 +186,7 @@ impl Linker {
                         writer
                             .add_dyn_symbol(sym.into(), None, inner_name, path)
                             .map_path_err(path)?;
-                        writer.add_needed(path.file_name().unwrap().to_str().unwrap());
+                        writer.add_needed(needed_name(&elf, path));
                     }
                 }
             }
@@ -292,6 +292,11 @@ impl Linker {
     }
 }
 
+/// How the dynamic linker is told to find the library at `path`.
+fn needed_name<'e>(elf: &Elf<'e>, path: &'e Path) -> &'e str {
+    elf.soname.unwrap_or_else(|| path.file_name().unwrap().to_str().unwrap())
+}
+
 fn get_section_name<'e>(elf: &Elf<'e>, index: usize) -> Result<&'e str, String> {
     elf.shdr_strtab.get_at(index).ok_or_else(|| "Symbol not found in strtab.".to_string())
 }
-- 
2.43.0


From 70ddda4ff66c2c4a9ad07b6768de8ceec3c85b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:38 +0000
Subject: [PATCH 25/45] fix: honour --no-as-needed

---
 src/lib.rs  | 5 ++++-
 src/main.rs | 8 +++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b42ed13..2b1adb7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -164,10 +164,13 @@ impl Linker {
     ) -> Result<Vec<elf::SymbolRef>, Error<'o>> {
         let mut undefines =
             symbols.iter().map(|s| (*s, false)).collect::<BTreeMap<elf::SymbolRef, bool>>();
-        for (lib, _) in &self.options.shared_libs {
+        for (lib, as_needed) in &self.options.shared_libs {
             let path = lib.as_path();
             let data = read(path).map_path_err(path)?;
             let elf = Elf::parse(&data).map_path_err(path)?;
+            if !as_needed {
+                writer.add_needed(needed_name(&elf, path));
+            }
             for entry in undefines.iter_mut().filter(|(_, v)| !**v) {
                 let name = if let Some(name) = writer.symbol_name(*entry.0) {
                     name.to_string()
diff --git a/src/main.rs b/src/main.rs
index b321841..d1b4cc5 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -33,7 +33,7 @@ struct AppArgs {
     objects: Vec<PathBuf>,
     archives: Vec<PathBuf>,
     search_paths: Vec<PathBuf>,
-    scripts: Vec<PathBuf>,
+    scripts: Vec<(PathBuf, bool)>,
     inputs: Vec<(PathBuf, bool)>,
     help: bool,
     as_needed: bool,
@@ -46,11 +46,13 @@ fn main() -> Result<(), String> {
         println!("{}", HELP);
         return Ok(());
     }
-    while let Some(script) = args.scripts.pop() {
+    while let Some((script, as_needed)) = args.scripts.pop() {
         let script_error = |e: &dyn std::fmt::Display| format!("`{}`: {}", script.display(), e);
         let text = std::fs::read_to_string(&script).map_err(|e| script_error(&e))?;
         let new_args = linker_script::parse(&text).map_err(|e| script_error(&e))?;
         if !new_args.is_empty() {
+            // what the script names is linked in the same way as the script
+            args.as_needed = as_needed;
             handle_linker_args(&mut new_args.into_iter().peekable(), &mut args)?;
             find_inputs(&mut args)?;
         }
@@ -240,7 +242,7 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
                     }
                 }
                 FileType::ElfSharedLib => args.opts.shared_libs.push((lib, as_needed)),
-                FileType::Text => args.scripts.push(lib),
+                FileType::Text => args.scripts.push((lib, as_needed)),
             }
         } else {
             return Err(lib);
-- 
2.43.0


From 700264055c3998f0866851d14009bfdb18c8d311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:57 +0000
Subject: [PATCH 26/45] fix: recognise archives without members

---
 src/main.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index d1b4cc5..73e713e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -76,11 +76,9 @@ enum FileType {
 }
 
 fn file_type(input: &std::path::Path) -> std::io::Result<FileType> {
-    let mut f = std::fs::File::open(&input)?;
-    let mut header = [0; 18];
-    if f.read_exact(&mut header).is_err() {
-        return Ok(FileType::Text);
-    }
+    let mut header = vec![];
+    // an archive without members is shorter than an ELF header
+    std::fs::File::open(&input)?.take(18).read_to_end(&mut header)?;
     if header.starts_with(goblin::archive::MAGIC) {
         Ok(FileType::Archive)
     } else if header.starts_with(&[0x7f, b'E', b'L', b'F']) {
-- 
2.43.0


From edddfa8adcce84acf6bf185e64212412ac5ebab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:52 +0000
Subject: [PATCH 27/45] fix: the address of a shared library's function is the
 one of its PLT entry

---
 src/elf.rs | 46 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 11f7b85..bc4cbbb 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -639,9 +639,15 @@ impl<'d> Writer<'d> {
 
         let mut got_plt_section = self.got_plt_section.write();
         let symbols = as_sym_tab(&self.sym_section);
+        let mut dyn_symbols = as_mut_sym_tab(&self.dyn_sym_section);
         for (sym, offset) in &self.got_plt {
             let sym = symbols.get(*sym).unwrap();
             let plt_entry_addr = plt_entry_addr(plt_address, sym.plt_index().unwrap());
+            // shared libraries have to agree with us on the address of the function
+            let dyn_sym = dyn_symbols.get_mut(sym.dynamic().unwrap()).unwrap();
+            if dyn_sym.plt_index().is_some() {
+                dyn_sym.st_value = plt_entry_addr as u64;
+            }
             // + `PLT_ENTRY_JMP_INSTR_SIZE` since initially we want to jump back past the `jmp`
             // instruction of the plt entry
             got_plt_section.chunk_mut(0)[*offset..]
@@ -781,6 +787,7 @@ impl<'d> Writer<'d> {
         for section in &mut self.sections {
             for chunk in section.write().chunks_mut() {
                 let mut symbols = as_mut_sym_tab(&self.sym_section);
+                let mut dyn_symbols = as_mut_sym_tab(&self.dyn_sym_section);
                 for (reloc, sym_ref) in chunk.relocations_mut() {
                     let r_type = reloc.r_info as u32;
                     match r_type as u32 {
@@ -803,23 +810,27 @@ impl<'d> Writer<'d> {
                         R_X86_64_PLT32 => {
                             let sym = symbols.get_mut(*sym_ref).unwrap();
                             if sym.dynamic().is_some() {
-                                let len = self.got_plt.len() + 3;
-                                let offset =
-                                    *self.got_plt.entry(*sym_ref).or_insert(len * size_of::<u64>());
-                                sym.set_got_plt_offset(offset);
-                                let index = self
-                                    .plt_section
-                                    .write()
-                                    .inner_mut::<plt::Plt>()
-                                    .unwrap()
-                                    .insert(*sym_ref);
-                                sym.set_plt_index(index);
+                                let mut plt = self.plt_section.write();
+                                reserve_plt_entry(*sym_ref, sym, &mut self.got_plt, &mut plt);
                             } else {
                                 // replace PLT32 with PC32 since the symbol is local to us
                                 reloc.r_info -= r_type as u64;
                                 reloc.r_info += R_X86_64_PC32 as u64;
                             }
                         }
+                        R_X86_64_64 | R_X86_64_32 | R_X86_64_32S | R_X86_64_PC32 => {
+                            let sym = symbols.get_mut(*sym_ref).unwrap();
+                            let dyn_sym = match sym.dynamic() {
+                                Some(d) if sym.is_undefined() => dyn_symbols.get_mut(d).unwrap(),
+                                _ => continue,
+                            };
+                            // the address of a function is the one of its PLT entry
+                            if !dyn_sym.is_object() && !dyn_sym.is_tls() {
+                                let mut plt = self.plt_section.write();
+                                reserve_plt_entry(*sym_ref, sym, &mut self.got_plt, &mut plt);
+                                dyn_sym.set_plt_index(sym.plt_index().unwrap());
+                            }
+                        }
                         _ => {}
                     }
                 }
@@ -1158,6 +1169,19 @@ impl<'d> Writer<'d> {
     }
 }
 
+fn reserve_plt_entry(
+    sym_ref: SymbolRef,
+    sym: &mut Symbol<'_>,
+    got_plt: &mut HashMap<SymbolRef, usize>,
+    plt_section: &mut Section<'_>,
+) {
+    let len = got_plt.len() + 3;
+    let offset = *got_plt.entry(sym_ref).or_insert(len * size_of::<u64>());
+    sym.set_got_plt_offset(offset);
+    let index = plt_section.inner_mut::<plt::Plt>().unwrap().insert(sym_ref);
+    sym.set_plt_index(index);
+}
+
 const fn rela(offset: usize, index: usize, ty: u32) -> Rela {
     Rela { r_offset: offset as u64, r_info: ((index << 32) + ty as usize) as u64, r_addend: 0 }
 }
-- 
2.43.0


From d26b143a4f78147436cc23061bb0358e11581cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:16 +0000
Subject: [PATCH 28/45] fix: a section allows whatever the input sections
 placed in it need

---
 src/elf.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index bc4cbbb..b350cd2 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -417,6 +417,8 @@ impl<'d> Writer<'d> {
             }
             section.sh_size += sh.sh_size;
             section.sh_addralign = std::cmp::max(section.sh_addralign, sh.sh_addralign);
+            // the section has to allow whatever its inputs need
+            section.sh_flags |= sh.sh_flags & u64::from(SHF_ALLOC | SHF_WRITE | SHF_EXECINSTR);
             let chunk = section.add_chunk(chunk);
             (section_ptr, chunk)
         };
-- 
2.43.0


From 73af7c9b8f7fc287d099bfd4150e6cbfa876485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:29 +0000
Subject: [PATCH 29/45] fix: keep the data of sections which mix NOBITS and
 data inputs

---
 src/elf.rs       | 10 ++++++++++
 src/elf/chunk.rs |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index b350cd2..78dff4f 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -411,6 +411,16 @@ impl<'d> Writer<'d> {
         } else {
             let section_ptr = Arc::clone(&self.sections[entry.index]);
             let mut section = self.sections[entry.index].write();
+            let mut chunk = chunk;
+            // if some of the data is on disk, then all of it has to be
+            match (section.sh_type == SHT_NOBITS, sh.sh_type == SHT_NOBITS) {
+                (true, false) => {
+                    section.sh_type = sh.sh_type;
+                    section.chunks_mut().iter_mut().for_each(Chunk::zero_fill);
+                }
+                (false, true) => chunk.zero_fill(),
+                _ => {}
+            }
             let padding = round_to(section.sh_size, sh.sh_addralign) - section.sh_size;
             if padding != 0 {
                 section.add_padding(padding);
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index eff810b..a2aa5b5 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -28,6 +28,11 @@ impl Chunk {
         Self { size, ..Self::new(vec![]) }
     }
 
+    /// Stores a NOBITS chunk on disk.
+    pub fn zero_fill(&mut self) {
+        self.data.resize(self.size as usize, 0);
+    }
+
     pub fn size(&self) -> u64 {
         self.size
     }
-- 
2.43.0


From 036cb2a35ce3a100e2e43ec0227cc5fe732bd293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:56 +0000
Subject: [PATCH 30/45] fix: apply relocations without a symbol

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2b1adb7..1bf5d83 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -10,7 +10,7 @@ use goblin::{
     archive::Archive,
     elf::{sym::Sym, Elf},
     elf64::{
-        reloc::Rela,
+        reloc::{Rela, R_X86_64_NONE},
         section_header::{
             SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB,
             SHT_SYMTAB,
@@ -126,7 +126,7 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         for (section_index, rels) in &elf.shdr_relocs {
             // the section to which the relocations apply
             let target = elf.section_headers[*section_index].sh_info as usize;
-            for rel in rels.iter().filter(|r| r.r_sym != 0) {
+            for rel in rels.iter().filter(|r| r.r_type != R_X86_64_NONE) {
                 let symbol = &elf.syms.get(rel.r_sym as usize).unwrap();
                 let index = if let Some(sec) = self.section_relocations.get(&target) {
                     sec.clone()
-- 
2.43.0


From b8b9a70c6443c372a28c7802305012e3ad9f220e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:13 +0000
Subject: [PATCH 31/45] fix: operand of relaxed call and jmp is one byte
 earlier

---
 src/elf/chunk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index a2aa5b5..5f3c9f2 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -161,7 +161,8 @@ fn apply_relocation(
             // -2 because the offset points to where we need to patch, but we want to
             // match the other two bytes to tell which instruction we're patching
             let buf = &mut data[offset - 2..];
-            let value: i32 = (s + a - p).try_into().unwrap();
+            // the new instruction is one byte shorter, which moves its operand towards its start
+            let value: i32 = (s + a - (p - 1)).try_into().unwrap();
             match buf[..2] {
                 // call *foo@GOTPCREL(%rip) -> call foo nop
                 [0xff, 0x15] => {
-- 
2.43.0


From aaaab5a7c3c381c41a2f65f72b5eb6f436e53ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:21:51 +0000
Subject: [PATCH 32/45] fix: refuse input sections named like the tables the
 linker generates

---
 src/elf.rs | 22 +++++++++++++++++-----
 src/lib.rs | 16 +++++++++-------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 78dff4f..380d15b 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -387,9 +387,14 @@ impl<'d> Writer<'d> {
         name: impl Into<Name>,
         sh: &goblin::elf::SectionHeader,
         data: Option<Vec<u8>>,
-    ) -> SectionRef<'d> {
-        let entry =
-            self.shstr_section.write().inner_mut::<StringTable>().unwrap().get_or_create(name);
+    ) -> Result<SectionRef<'d>, ErrorType> {
+        let name = name.into();
+        let entry = self
+            .shstr_section
+            .write()
+            .inner_mut::<StringTable>()
+            .unwrap()
+            .get_or_create(name.clone());
         let chunk = data.map_or_else(|| Chunk::nobits(sh.sh_size), Chunk::from);
         let (section, chunk) = if entry.new {
             let sh = SectionHeader {
@@ -411,6 +416,13 @@ impl<'d> Writer<'d> {
         } else {
             let section_ptr = Arc::clone(&self.sections[entry.index]);
             let mut section = self.sections[entry.index].write();
+            // only the tables we generate later on are still empty
+            if section.chunks().is_empty() {
+                return Err(ErrorType::Other(format!(
+                    "section '{}' is generated by the linker",
+                    &name as &str
+                )));
+            }
             let mut chunk = chunk;
             // if some of the data is on disk, then all of it has to be
             match (section.sh_type == SHT_NOBITS, sh.sh_type == SHT_NOBITS) {
@@ -432,7 +444,7 @@ impl<'d> Writer<'d> {
             let chunk = section.add_chunk(chunk);
             (section_ptr, chunk)
         };
-        SectionRef { section, chunk }
+        Ok(SectionRef { section, chunk })
     }
 
     pub fn push_section(
@@ -440,7 +452,7 @@ impl<'d> Writer<'d> {
         name: impl Into<Name>,
         section: &goblin::elf::SectionHeader,
         data: Option<&[u8]>,
-    ) -> SectionRef<'d> {
+    ) -> Result<SectionRef<'d>, ErrorType> {
         let data = data.map(|v| v.to_owned());
         self.add_section(name, section, data)
     }
diff --git a/src/lib.rs b/src/lib.rs
index 1bf5d83..b89cb0a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,7 +12,7 @@ use goblin::{
     elf64::{
         reloc::{Rela, R_X86_64_NONE},
         section_header::{
-            SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB,
+            SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_NULL, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB,
             SHT_SYMTAB,
         },
         sym::STB_LOCAL,
@@ -26,7 +26,7 @@ use std::{
 };
 
 const SKIPPED_SECTIONS: &[u32] =
-    &[SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB];
+    &[SHT_NULL, SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB];
 
 struct Symbol(Sym);
 
@@ -88,11 +88,13 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         {
             let name =
                 get_section_name(&self.elf, section.sh_name).map_path_err(self.input.path)?;
-            let section_ref = writer.push_section(
-                name.to_owned(),
-                section,
-                section.file_range().map(|r| &self.input.data[r]),
-            );
+            let section_ref = writer
+                .push_section(
+                    name.to_owned(),
+                    section,
+                    section.file_range().map(|r| &self.input.data[r]),
+                )
+                .map_path_err(self.input.path)?;
             log::trace!(
                 "Section '{}:{}' of {:?} mapped to {:?}",
                 i,
-- 
2.43.0


From 653eab693c3353ab8625313f738d26efa8e00f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:02:34 +0000
Subject: [PATCH 33/45] fix: don't copy the section links of the input, which
 index its own headers

---
 src/elf.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 380d15b..c08ff9e 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -402,8 +402,9 @@ impl<'d> Writer<'d> {
                 sh_type: sh.sh_type,
                 sh_flags: sh.sh_flags as u64,
                 sh_size: sh.sh_size,
-                sh_link: sh.sh_link,
-                sh_info: sh.sh_info,
+                // these are indices into the tables of the input, which we don't keep
+                sh_link: 0,
+                sh_info: 0,
                 sh_entsize: sh.sh_entsize,
                 sh_addralign: sh.sh_addralign,
                 // patched later on
-- 
2.43.0


From e3ac6e6ce81eaff81d7b5038e85cc91e046689ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:11:54 +0000
Subject: [PATCH 34/45] fix: skip the hash tables of the input, as its other
 tables for the loader

---
 src/lib.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b89cb0a..5440967 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,8 +12,8 @@ use goblin::{
     elf64::{
         reloc::{Rela, R_X86_64_NONE},
         section_header::{
-            SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_NULL, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB,
-            SHT_SYMTAB,
+            SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_GNU_HASH, SHT_HASH, SHT_NULL, SHT_REL,
+            SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
         sym::STB_LOCAL,
     },
@@ -25,8 +25,18 @@ use std::{
     path::{Path, PathBuf},
 };
 
-const SKIPPED_SECTIONS: &[u32] =
-    &[SHT_NULL, SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB];
+const SKIPPED_SECTIONS: &[u32] = &[
+    SHT_NULL,
+    SHT_SYMTAB,
+    SHT_DYNSYM,
+    SHT_STRTAB,
+    SHT_RELA,
+    SHT_DYNAMIC,
+    SHT_REL,
+    SHT_SHLIB,
+    SHT_HASH,
+    SHT_GNU_HASH,
+];
 
 struct Symbol(Sym);
 
-- 
2.43.0


From 331a0ccdfa0f5c1debd84845f0ad5aa7e23af828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:11:55 +0000
Subject: [PATCH 35/45] fix: record a needed library even if a symbol has its
 name

---
 src/elf.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index c08ff9e..f25d66c 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -70,7 +70,7 @@ const PLT_ENTRY_PUSH_INSTR_SIZE: usize = 5;
 // The PLT header is just as big.
 const PLT_ENTRY_SIZE: usize = 16;
 
-#[derive(Clone, Copy, Debug)]
+#[derive(Clone, Copy, Debug, PartialEq)]
 pub enum DynTag {
     /// Marks end of dynamic section
     Null = 0,
@@ -611,8 +611,10 @@ impl<'d> Writer<'d> {
             .inner_mut::<StringTable>()
             .unwrap()
             .get_or_create(so_name.to_string());
-        if entry.new {
-            self.dyn_entries.push((DynTag::Needed, entry.offset as u64));
+        let needed = (DynTag::Needed, entry.offset as u64);
+        // the name may already be there as that of a symbol
+        if !self.dyn_entries.contains(&needed) {
+            self.dyn_entries.push(needed);
         }
     }
 
-- 
2.43.0


From a3a6d04ca142e9eecc5ac95fc042d1e1fbbebde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:50:04 +0000
Subject: [PATCH 36/45] fix: look libraries up by name only in the library
 directories

---
 src/main.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 73e713e..ec42c30 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -34,7 +34,8 @@ struct AppArgs {
     archives: Vec<PathBuf>,
     search_paths: Vec<PathBuf>,
     scripts: Vec<(PathBuf, bool)>,
-    inputs: Vec<(PathBuf, bool)>,
+    // path or name, whether it is linked as needed, and whether it is the name of a library
+    inputs: Vec<(PathBuf, bool, bool)>,
     help: bool,
     as_needed: bool,
 }
@@ -167,7 +168,7 @@ fn handle_linker_args(
             "-l" => {
                 let path =
                     args.next().ok_or_else(|| "Missing argument <PATH> for '-l'.".to_string())?;
-                app.inputs.push((path.into(), app.as_needed));
+                app.inputs.push((path.into(), app.as_needed, true));
                 continue;
             }
             "-z" => {
@@ -194,20 +195,20 @@ fn handle_linker_args(
         if let Some(arg) = arg.strip_prefix("-L") {
             app.search_paths.push(arg.into());
         } else if let Some(lib) = arg.strip_prefix("-l") {
-            app.inputs.push((lib.into(), app.as_needed));
+            app.inputs.push((lib.into(), app.as_needed, true));
         } else if let Some(arg) = arg.strip_prefix("--hash-style=") {
             app.opts.hash_style = HashStyle::from_str(arg)?;
         } else {
-            app.inputs.push((arg.into(), app.as_needed));
+            app.inputs.push((arg.into(), app.as_needed, false));
         }
     }
     Ok(())
 }
 
 fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
-    for (lib, as_needed) in args.inputs.drain(..) {
+    for (lib, as_needed, is_library) in args.inputs.drain(..) {
         let mut found = None;
-        if lib.exists() && lib.is_file() {
+        if !is_library && lib.exists() && lib.is_file() {
             found = Some(lib.clone());
         }
         for kind in ["so", "a"] {
@@ -216,7 +217,7 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
             }
             for dir in &args.search_paths {
                 let p = dir.join(&lib);
-                if p.exists() && p.is_file() {
+                if !is_library && p.exists() && p.is_file() {
                     found = Some(p);
                     break;
                 }
-- 
2.43.0


From 2a3ef62c9534c42c0c08d8428f8ccb54b47cdd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:57:45 +0000
Subject: [PATCH 37/45] fix: tell archive members with the same name apart

---
 src/lib.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5440967..1be9cc4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -221,6 +221,13 @@ impl Linker {
             let path = ar.as_path();
             let data = read(path).map_path_err(path)?;
             let ar = Archive::parse(&data).map_path_err(path)?;
+            // members are told apart by their position, as several can have the same name
+            let mut definitions = BTreeMap::new();
+            for (member, (_, _, symbols)) in ar.summarize().into_iter().enumerate() {
+                for symbol in symbols {
+                    definitions.insert(symbol, member);
+                }
+            }
             let mut members = BTreeSet::new();
             // a weak reference is no reason to include a member
             for entry in undefines.iter_mut().filter(|(s, _)| !writer.is_weak(**s)) {
@@ -229,19 +236,19 @@ impl Linker {
                 } else {
                     continue;
                 };
-                if let Some(member) = ar.member_of_symbol(&*name) {
+                if let Some(member) = definitions.get(&*name) {
                     *entry.1 = true;
-                    members.insert(member);
+                    members.insert(*member);
                 }
             }
             for member in members {
-                let object = ar.get(member).unwrap();
+                let object = ar.get_at(member).unwrap();
                 let object_data =
                     &data[(object.offset as usize)..(object.offset as usize + object.size())];
                 let input = Input { path, data: object_data };
                 let mut elf = input
                     .to_elf_object()?
-                    .ok_or_else(|| format!("'{}' is not an object file.", member))
+                    .ok_or_else(|| format!("'{}' is not an object file.", object.extended_name()))
                     .map_path_err(path)?;
                 elf.process_sections(writer)?;
                 elf.process_symbols(writer)?;
-- 
2.43.0


From 16342577cfbdb7383074681c734a6864b87d5400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:58:00 +0000
Subject: [PATCH 38/45] fix: don't link the same archive member over and over

---
 src/lib.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1be9cc4..59435ce 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -213,11 +213,12 @@ impl Linker {
     fn process_archives_containing<'o>(
         &'o self,
         symbols: &[elf::SymbolRef],
+        linked: &mut BTreeSet<(usize, usize)>,
         writer: &mut elf::Writer<'o>,
     ) -> Result<Vec<elf::SymbolRef>, Error<'o>> {
         let mut undefines =
             symbols.iter().map(|s| (*s, false)).collect::<BTreeMap<elf::SymbolRef, bool>>();
-        for ar in &self.archives {
+        for (archive, ar) in self.archives.iter().enumerate() {
             let path = ar.as_path();
             let data = read(path).map_path_err(path)?;
             let ar = Archive::parse(&data).map_path_err(path)?;
@@ -236,12 +237,17 @@ impl Linker {
                 } else {
                     continue;
                 };
-                if let Some(member) = definitions.get(&*name) {
-                    *entry.1 = true;
-                    members.insert(*member);
+                match definitions.get(&*name) {
+                    // the index can be out of date: what was linked before doesn't define it
+                    Some(member) if !linked.contains(&(archive, *member)) => {
+                        *entry.1 = true;
+                        members.insert(*member);
+                    }
+                    _ => {}
                 }
             }
             for member in members {
+                linked.insert((archive, member));
                 let object = ar.get_at(member).unwrap();
                 let object_data =
                     &data[(object.offset as usize)..(object.offset as usize + object.size())];
@@ -287,9 +293,11 @@ impl Linker {
             elf.process_relocations(&mut writer)?;
         }
         let mut undefined = writer.undefined_symbols();
+        let mut linked = BTreeSet::new();
         loop {
             let undefined_next = self.find_undefined_symbols_in_libs(&undefined, &mut writer)?;
-            let undefined_next = self.process_archives_containing(&undefined_next, &mut writer)?;
+            let undefined_next =
+                self.process_archives_containing(&undefined_next, &mut linked, &mut writer)?;
             // if the length doesn't change, it means we haven't found any of our symbols
             if undefined.len() == undefined_next.len() {
                 break;
-- 
2.43.0


From adb5977efed084053c31d5c5c9cc9e3d983a076e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:27:52 +0000
Subject: [PATCH 39/45] fix: don't link archive members whose symbols another
 member has defined

---
 src/elf.rs | 4 ++++
 src/lib.rs | 9 ++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index f25d66c..be792b0 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -568,6 +568,10 @@ impl<'d> Writer<'d> {
         undefined
     }
 
+    pub fn is_undefined(&self, sym: SymbolRef) -> bool {
+        matches!(as_sym_tab(&self.sym_section).get(sym), Some(s) if s.is_undefined())
+    }
+
     pub fn is_weak(&self, sym: SymbolRef) -> bool {
         matches!(as_sym_tab(&self.sym_section).get(sym), Some(s) if s.is_weak())
     }
diff --git a/src/lib.rs b/src/lib.rs
index 59435ce..79fca4d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -241,13 +241,16 @@ impl Linker {
                     // the index can be out of date: what was linked before doesn't define it
                     Some(member) if !linked.contains(&(archive, *member)) => {
                         *entry.1 = true;
-                        members.insert(*member);
+                        members.insert((*member, *entry.0));
                     }
                     _ => {}
                 }
             }
-            for member in members {
-                linked.insert((archive, member));
+            for (member, symbol) in members {
+                // a member before this one can define the symbol as well
+                if !writer.is_undefined(symbol) || !linked.insert((archive, member)) {
+                    continue;
+                }
                 let object = ar.get_at(member).unwrap();
                 let object_data =
                     &data[(object.offset as usize)..(object.offset as usize + object.size())];
-- 
2.43.0


From b452bd1bc2e7a653ab66022c55d934948d797581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:02:45 +0000
Subject: [PATCH 40/45] fix: don't follow a linker script that has been
 followed

---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index ec42c30..5dd5c72 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,6 +1,6 @@
 use dld::elf::{BuildId, Emulation, HashStyle, Options};
 use goblin::elf32::header::ET_DYN;
-use std::{io::Read, path::PathBuf, str::FromStr};
+use std::{collections::HashSet, io::Read, path::PathBuf, str::FromStr};
 
 mod linker_script;
 
@@ -47,7 +47,12 @@ fn main() -> Result<(), String> {
         println!("{}", HELP);
         return Ok(());
     }
+    let mut followed = HashSet::new();
     while let Some((script, as_needed)) = args.scripts.pop() {
+        if !followed.insert((script.clone(), as_needed)) {
+            // scripts can name each other, or themselves
+            continue;
+        }
         let script_error = |e: &dyn std::fmt::Display| format!("`{}`: {}", script.display(), e);
         let text = std::fs::read_to_string(&script).map_err(|e| script_error(&e))?;
         let new_args = linker_script::parse(&text).map_err(|e| script_error(&e))?;
-- 
2.43.0


From a503200b9d54d371a428e8ead84a350bdd290123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:26:30 +0000
Subject: [PATCH 41/45] fix: leave symbols that an input defines to the input

---
 src/elf.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index be792b0..367dba2 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -726,9 +726,15 @@ impl<'d> Writer<'d> {
 
         let got_plt_addr = self.got_plt_address();
 
-        if let Some(e) = symbol_names.get("_GLOBAL_OFFSET_TABLE_") {
+        // the symbols which no input defines
+        let undefined = |name: &'static str| {
+            let sym_ref = SymbolRef::Named(symbol_names.get(name)?.offset as u32);
+            self.is_undefined(sym_ref).then_some(sym_ref)
+        };
+
+        if let Some(sym_ref) = undefined("_GLOBAL_OFFSET_TABLE_") {
             let mut symbols = as_mut_sym_tab(&self.sym_section);
-            if let Some(s) = symbols.get_mut(SymbolRef::Named(e.offset as u32)) {
+            if let Some(s) = symbols.get_mut(sym_ref) {
                 s.st_shndx = self.got_plt_section.read().index() as u16;
                 s.st_value = got_plt_addr;
             };
@@ -737,11 +743,10 @@ impl<'d> Writer<'d> {
         for section in self.sections.iter().filter(|s| !skip.contains(&s.read().sh_name)) {
             let mut section = section.write();
             if is_some_with(section_names.sh_name(".init_array"), &section.sh_name) {
-                if let Some(s) = symbol_names.get("__init_array_start") {
-                    section.chunk_mut(0).add_symbol(SymbolRef::Named(s.offset as u32));
+                if let Some(sym_ref) = undefined("__init_array_start") {
+                    section.chunk_mut(0).add_symbol(sym_ref);
                 }
-                if let Some(s) = symbol_names.get("__init_array_end") {
-                    let sym_ref = SymbolRef::Named(s.offset as u32);
+                if let Some(sym_ref) = undefined("__init_array_end") {
                     let mut symbols = as_mut_sym_tab(&self.sym_section);
                     if let Some(sym) = symbols.get_mut(sym_ref) {
                         sym.st_value = section.size_on_disk();
@@ -749,11 +754,10 @@ impl<'d> Writer<'d> {
                     section.chunk_mut(0).add_symbol(sym_ref);
                 }
             } else if is_some_with(section_names.sh_name(".fini_array"), &section.sh_name) {
-                if let Some(s) = symbol_names.get("__fini_array_start") {
-                    section.chunk_mut(0).add_symbol(SymbolRef::Named(s.offset as u32));
+                if let Some(sym_ref) = undefined("__fini_array_start") {
+                    section.chunk_mut(0).add_symbol(sym_ref);
                 }
-                if let Some(s) = symbol_names.get("__fini_array_end") {
-                    let sym_ref = SymbolRef::Named(s.offset as u32);
+                if let Some(sym_ref) = undefined("__fini_array_end") {
                     let mut symbols = as_mut_sym_tab(&self.sym_section);
                     if let Some(sym) = symbols.get_mut(sym_ref) {
                         sym.st_value = section.size_on_disk();
-- 
2.43.0


From dabb6819daa55212b8abadaf65872c85907280b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:38:12 +0000
Subject: [PATCH 42/45] fix: place sections that aren't loaded behind those
 that are

---
 src/elf.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 367dba2..3802e5d 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -1343,14 +1343,13 @@ fn section_cmp(s1: &SectionPtr, s2: &SectionPtr) -> Ordering {
         Ordering::Equal => (s1.sh_type == SHT_NOBITS)
             .cmp(&(s2.sh_type == SHT_NOBITS))
             .then(s1.sh_addralign.cmp(&s2.sh_addralign).reverse()),
-        // no flags should come last
+        // sections which aren't loaded should come last
         o => {
-            if s1.sh_flags == 0 {
-                Ordering::Greater
-            } else if s2.sh_flags == 0 {
-                Ordering::Less
-            } else {
-                o
+            let is_alloc = |flags: u64| flags as u32 & SHF_ALLOC == SHF_ALLOC;
+            match (is_alloc(s1.sh_flags), is_alloc(s2.sh_flags)) {
+                (true, false) => Ordering::Less,
+                (false, true) => Ordering::Greater,
+                _ => o,
             }
         }
     }
-- 
2.43.0


From d8de599dd40d6f0dd04077135eee23b383e9fb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:38:44 +0000
Subject: [PATCH 43/45] fix: describe the program headers where the first
 segment is

---
 src/elf.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index 3802e5d..f055a5b 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -1126,6 +1126,7 @@ impl<'d> Writer<'d> {
                     self.program_headers.push(ph);
                 }
 
+                let first_load = first_load_data.is_some();
                 // this function deals with sh_offset for us. if we don't
                 // get a header, then we have to deal with it
                 program_header = get_load_program_header(
@@ -1134,6 +1135,10 @@ impl<'d> Writer<'d> {
                     &mut self.p_vaddr,
                     &mut first_load_data,
                 );
+                if let Some(ph) = program_header.as_ref().filter(|_| first_load) {
+                    // where the headers are
+                    self.start_p_vaddr = ph.p_vaddr;
+                }
                 if program_header.is_none() {
                     sh.sh_offset = post_inc(&mut self.file_offset, sh.size_on_disk());
                 }
-- 
2.43.0


From 64b9580ca21383bd27d36c05bd228d464911fbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:23 +0000
Subject: [PATCH 44/45] fix: a linker script's comment may contain an asterisk

---
 src/linker_script.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/linker_script.rs b/src/linker_script.rs
index 66c6ab3..1f12a5d 100644
--- a/src/linker_script.rs
+++ b/src/linker_script.rs
@@ -2,7 +2,9 @@ use combine::error::{ParseError, StringStreamError};
 use combine::parser::char::{alpha_num, char, space, string};
 use combine::parser::repeat::skip_until;
 use combine::stream::Stream;
-use combine::{between, choice, many1, optional, sep_end_by, skip_many, skip_many1, Parser};
+use combine::{
+    attempt, between, choice, many1, optional, sep_end_by, skip_many, skip_many1, Parser,
+};
 
 /// Parses an argument like: 'foo.so' or `/lib/foo.so'.
 pub fn parse_arg<Input>() -> impl Parser<Input, Output = String>
@@ -18,7 +20,7 @@ where
     Input: Stream<Token = char>,
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
 {
-    between(string("/*"), string("*/"), skip_until(string("*/")))
+    between(string("/*"), string("*/"), skip_until(attempt(string("*/"))))
 }
 
 /// Parses a GROUP command like: GROUP ( libgcc_s.so.1 -lgcc )
-- 
2.43.0


From 83d6b432bed8a20d50a5e4364b4cfa97c775538a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:30 +0000
Subject: [PATCH 45/45] fix: a name in a linker script's group may begin with
 an A

---
 src/linker_script.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/linker_script.rs b/src/linker_script.rs
index 1f12a5d..524eee5 100644
--- a/src/linker_script.rs
+++ b/src/linker_script.rs
@@ -44,7 +44,8 @@ where
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
 {
     let args = (skip_many(space()), sep_end_by(parse_arg(), skip_many(space())));
-    (string("AS_NEEDED"), skip_many(space()), between(char('('), char(')'), args)).map(
+    // a name in a group may begin like AS_NEEDED
+    (attempt(string("AS_NEEDED")), skip_many(space()), between(char('('), char(')'), args)).map(
         |(_, _, s): (_, _, (_, Vec<String>))| {
             let mut v: Vec<String> = vec!["--as-needed".into()];
             v.extend(s.1);
-- 
2.43.0

