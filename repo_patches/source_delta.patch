From ea81ea74eed6c17012d9b179e63190348f4f2a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:39 +0000
Subject: [PATCH 01/76] fix: write exactly the sections' own data in rebuild_pe

Section data shorter than SizeOfRawData was read past its end, sections
without raw data padded up to a stale PointerToRawData, and padding was
derived from tellp, which is wrong for unseekable or already positioned
output streams.
---
 src/pe_lib/pe_rebuilder.cpp | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index eb9888d..d5dbcbd 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -109,6 +109,10 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
         save_bound_import = false;
     }
 
+    //Number of bytes written so far (output stream may be unseekable
+    //or may be positioned not at its beginning)
+    size_t written = strip_dos_header ? 8 * sizeof(uint16_t) : sizeof(image_dos_header);
+
     {
         image_dos_header dos_header;
 
@@ -126,6 +130,7 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
         {
             out.write(stub.data(), stub.size());
             size_t aligned_size = pe_utils::align_up(stub.size(), sizeof(uint32_t));
+            written += aligned_size;
             //Align PE header, which is right after rich overlay
             while(aligned_size > stub.size())
             {
@@ -136,14 +141,17 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
     }
     
     //Write NT headers
-    out.write(static_cast<const pe_base&>(pe).get_nt_headers_ptr(), pe.get_sizeof_nt_header()
-        - sizeof(image_data_directory) * (image_numberof_directory_entries - pe.get_number_of_rvas_and_sizes()));
+    const size_t nt_headers_size = pe.get_sizeof_nt_header()
+        - sizeof(image_data_directory) * (image_numberof_directory_entries - pe.get_number_of_rvas_and_sizes());
+    out.write(static_cast<const pe_base&>(pe).get_nt_headers_ptr(), nt_headers_size);
+    written += nt_headers_size;
 
     //Write section headers
     const section_list& sections = pe.get_image_sections();
     for(section_list::const_iterator it = sections.begin(); it != sections.end(); ++it)
     {
         out.write(reinterpret_cast<const char*>(&(*it).get_raw_header()), sizeof(image_section_header));
+        written += sizeof(image_section_header);
     }
 
     //Write bound import data if requested
@@ -151,21 +159,31 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
     {
         out.write(pe.section_data_from_rva(original_bound_import_rva, section_data_raw, true),
             pe.get_directory_size(image_directory_entry_bound_import));
+        written += pe.get_directory_size(image_directory_entry_bound_import);
     }
 
     //Write section data finally
     for(section_list::const_iterator it = sections.begin(); it != sections.end(); ++it)
     {
         const section& s = *it;
+        const uint32_t raw_size = s.get_size_of_raw_data();
 
-        std::streamoff wpos = out.tellp();
+        //Sections without raw data occupy nothing in file
+        if(!raw_size)
+            continue;
 
         //Fill unused overlay data between sections with null bytes
-        for(unsigned int i = 0; i < s.get_pointer_to_raw_data() - wpos; i++)
-            out.put(0);
+        for(; written < s.get_pointer_to_raw_data(); ++written)
+            out.put('\0');
+
+        //Write raw section data, it may be shorter than the size stated in section header
+        const std::string& raw_data = s.get_raw_data();
+        const size_t data_size = raw_data.size() < raw_size ? raw_data.size() : raw_size;
+        out.write(raw_data.data(), data_size);
+        for(size_t i = data_size; i < raw_size; ++i)
+            out.put('\0');
 
-        //Write raw section data
-        out.write(s.get_raw_data().data(), s.get_size_of_raw_data());
+        written += raw_size;
     }
 }
 }
-- 
2.43.0


From fc86e5a6cc4b54c74b7c2e517b2a24b519ef4a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 02/76] fix: keep bound imports placed in headers readable
 after saving

rebuild_pe left the directory RVA pointing to the place in the new file, so
the next save wrote other bytes; it also refused to save images whose bound
import directory lies in the virtual part of a section.
---
 src/pe_lib/pe_rebuilder.cpp | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index d5dbcbd..450aa0f 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -89,9 +89,18 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
     if(out.bad())
         throw pe_exception("Stream is bad", pe_exception::stream_is_bad);
 
+    uint32_t original_bound_import_rva = pe.has_bound_import() ? pe.get_directory_rva(image_directory_entry_bound_import) : 0;
+    if(original_bound_import_rva && original_bound_import_rva > pe.get_size_of_headers())
+    {
+        //No need to do anything with bound import directory
+        //if it is placed inside of any section, not headers
+        original_bound_import_rva = 0;
+        save_bound_import = false;
+    }
+
     if(save_bound_import && pe.has_bound_import())
     {
-        if(pe.section_data_length_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), pe.get_directory_rva(image_directory_entry_bound_import), section_data_raw, true)
+        if(pe.section_data_length_from_rva(original_bound_import_rva, original_bound_import_rva, section_data_raw, true)
             < pe.get_directory_size(image_directory_entry_bound_import))
             throw pe_exception("Incorrect bound import directory", pe_exception::incorrect_bound_import_directory);
     }
@@ -99,15 +108,6 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
     //Change ostream state
     out.exceptions(std::ios::goodbit);
     out.clear();
-    
-    uint32_t original_bound_import_rva = pe.has_bound_import() ? pe.get_directory_rva(image_directory_entry_bound_import) : 0;
-    if(original_bound_import_rva && original_bound_import_rva > pe.get_size_of_headers())
-    {
-        //No need to do anything with bound import directory
-        //if it is placed inside of any section, not headers
-        original_bound_import_rva = 0;
-        save_bound_import = false;
-    }
 
     //Number of bytes written so far (output stream may be unseekable
     //or may be positioned not at its beginning)
@@ -117,7 +117,18 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
         image_dos_header dos_header;
 
         //Rebuild PE image headers
-        rebuild_pe(pe, dos_header, strip_dos_header, change_size_of_headers, save_bound_import);
+        try
+        {
+            rebuild_pe(pe, dos_header, strip_dos_header, change_size_of_headers, save_bound_import);
+        }
+        catch(const pe_exception&)
+        {
+            //Bound import directory has not been moved
+            if(original_bound_import_rva)
+                pe.set_directory_rva(image_directory_entry_bound_import, original_bound_import_rva);
+
+            throw;
+        }
 
         //Write DOS header
         out.write(reinterpret_cast<const char*>(&dos_header), strip_dos_header ? 8 * sizeof(uint16_t) : sizeof(image_dos_header));
@@ -160,6 +171,9 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
         out.write(pe.section_data_from_rva(original_bound_import_rva, section_data_raw, true),
             pe.get_directory_size(image_directory_entry_bound_import));
         written += pe.get_directory_size(image_directory_entry_bound_import);
+
+        //Loaded headers of this image still contain bound import data at its original place
+        pe.set_directory_rva(image_directory_entry_bound_import, original_bound_import_rva);
     }
 
     //Write section data finally
-- 
2.43.0


From 33245927a0a153684ea0584fc0d7c7c48047c4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 03/76] fix: check record lengths when reading debug data

MISC records shorter than their header underflowed, COFF file names ignored
LvaToFirstSymbol, and names starting right at the end of data were read.
---
 src/pe_lib/pe_debug.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 5dc2f6e..fc748b3 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -677,7 +677,7 @@ const debug_info_list get_debug_information(const pe_base& pe)
                         if(sym->StorageClass == image_sym_class_file)
                         {
                             //Save file name, it is situated just after this IMAGE_SYMBOL structure
-                            std::string file_name(reinterpret_cast<const char*>(debug_data.data() + (i + 1) * sizeof(image_symbol)), sym->NumberOfAuxSymbols * sizeof(image_symbol));
+                            std::string file_name(reinterpret_cast<const char*>(debug_data.data() + (i + 1) * sizeof(image_symbol) + coff->LvaToFirstSymbol), sym->NumberOfAuxSymbols * sizeof(image_symbol));
                             pe_utils::strip_nullbytes(file_name);
                             symbol.set_file_name(file_name);
 
@@ -724,7 +724,7 @@ const debug_info_list get_debug_information(const pe_base& pe)
                                 uint32_t symbol_offset = coff->LvaToFirstSymbol + coff->NumberOfSymbols * sizeof(image_symbol) + sym->N.Name.Long;
 
                                 //Check data length
-                                if(debug_data.length() < symbol_offset)
+                                if(debug_data.length() <= symbol_offset)
                                     throw pe_exception("Incorrect debug directory", pe_exception::incorrect_debug_directory);
 
                                 //Check symbol name for null-termination
@@ -751,7 +751,7 @@ const debug_info_list get_debug_information(const pe_base& pe)
             case image_debug_type_codeview:
                 {
                     //Check data length
-                    if(debug_data.length() < sizeof(OMFSignature*))
+                    if(debug_data.length() < sizeof(OMFSignature))
                         throw pe_exception("Incorrect debug directory", pe_exception::incorrect_debug_directory);
 
                     //Get POMFSignature structure pointer from the very beginning of debug data
@@ -817,7 +817,8 @@ const debug_info_list get_debug_information(const pe_base& pe)
                     const image_debug_misc* misc_data = reinterpret_cast<const image_debug_misc*>(debug_data.data());
 
                     //Check misc data length
-                    if(debug_data.length() < misc_data->Length /* Total length of record */)
+                    if(debug_data.length() < misc_data->Length /* Total length of record */
+                        || misc_data->Length < sizeof(image_debug_misc) - 1 /* BYTE[1] in the end of structure */)
                         throw pe_exception("Incorrect debug directory", pe_exception::incorrect_debug_directory);
 
                     //Save advanced information
-- 
2.43.0


From 806f340c0f9505fc1c58ad6993f7d2dc02ba652e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 04/76] fix: report CodeView 4.0 and 5.0 debug information
 types

set_advanced_info_type tested the type it had just reset instead of the
requested one, so it never stored anything.
---
 src/pe_lib/pe_debug.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index fc748b3..11da991 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -298,7 +298,7 @@ const coff_debug_info debug_info::get_advanced_debug_info<coff_debug_info>() con
 void debug_info::set_advanced_info_type(advanced_info_type type)
 {
     free_present_advanced_info();
-    if(advanced_info_type_ >= advanced_info_codeview_4_0) //Don't set info type for those types, which have advanced info structures
+    if(type >= advanced_info_codeview_4_0) //Don't set info type for those types, which have advanced info structures
         advanced_info_type_ = type;
 }
 
-- 
2.43.0


From cdee0ea7655a1d032826a690d00bef8f7c7c6072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 05/76] fix: make debug_info assignment safe for
 self-assignment and failures

---
 src/pe_lib/pe_debug.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 11da991..24c413b 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -1,4 +1,5 @@
 #include <string.h>
+#include <algorithm>
 #include "pe_debug.h"
 #include "utils.h"
 
@@ -138,7 +139,10 @@ debug_info::debug_info(const debug_info& info)
 //Copy assignment operator
 debug_info& debug_info::operator=(const debug_info& info)
 {
-    copy_advanced_info(info);
+    //Copy first: assignment to itself is possible, and copying can fail
+    debug_info copy(info);
+    std::swap(advanced_debug_info_, copy.advanced_debug_info_);
+    std::swap(advanced_info_type_, copy.advanced_info_type_);
 
     characteristics_ = info.characteristics_;
     time_stamp_ = info.time_stamp_;
@@ -148,7 +152,6 @@ debug_info& debug_info::operator=(const debug_info& info)
     size_of_data_ = info.size_of_data_;
     address_of_raw_data_ = info.address_of_raw_data_;
     pointer_to_raw_data_ = info.pointer_to_raw_data_;
-    advanced_info_type_ = info.advanced_info_type_;
 
     return *this;
 }
@@ -224,29 +227,33 @@ debug_info::~debug_info()
 //Sets advanced debug information
 void debug_info::set_advanced_debug_info(const pdb_7_0_info& info)
 {
+    pdb_7_0_info* new_info = new pdb_7_0_info(info);
     free_present_advanced_info();
-    advanced_debug_info_.adv_pdb_7_0_info = new pdb_7_0_info(info);
+    advanced_debug_info_.adv_pdb_7_0_info = new_info;
     advanced_info_type_ = advanced_info_pdb_7_0;
 }
 
 void debug_info::set_advanced_debug_info(const pdb_2_0_info& info)
 {
+    pdb_2_0_info* new_info = new pdb_2_0_info(info);
     free_present_advanced_info();
-    advanced_debug_info_.adv_pdb_2_0_info = new pdb_2_0_info(info);
+    advanced_debug_info_.adv_pdb_2_0_info = new_info;
     advanced_info_type_ = advanced_info_pdb_2_0;
 }
 
 void debug_info::set_advanced_debug_info(const misc_debug_info& info)
 {
+    misc_debug_info* new_info = new misc_debug_info(info);
     free_present_advanced_info();
-    advanced_debug_info_.adv_misc_info = new misc_debug_info(info);
+    advanced_debug_info_.adv_misc_info = new_info;
     advanced_info_type_ = advanced_info_misc;
 }
 
 void debug_info::set_advanced_debug_info(const coff_debug_info& info)
 {
+    coff_debug_info* new_info = new coff_debug_info(info);
     free_present_advanced_info();
-    advanced_debug_info_.adv_coff_info = new coff_debug_info(info);
+    advanced_debug_info_.adv_coff_info = new_info;
     advanced_info_type_ = advanced_info_coff;
 }
 
-- 
2.43.0


From b16a852a8d379a5bf1e149a55bbe6af6351de7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 06/76] fix: read back empty relocation directories

The size of the first block was checked even when the directory is empty,
so rebuilding an empty list over other data made the directory unreadable.
---
 src/pe_lib/pe_relocations.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_relocations.cpp b/src/pe_lib/pe_relocations.cpp
index 331ea46..97f6c54 100644
--- a/src/pe_lib/pe_relocations.cpp
+++ b/src/pe_lib/pe_relocations.cpp
@@ -119,15 +119,15 @@ const relocation_table_list get_relocations(const pe_base& pe, bool list_absolut
     //First IMAGE_BASE_RELOCATION table
     image_base_relocation reloc_table = pe.section_data_from_rva<image_base_relocation>(current_pos, section_data_virtual, true);
 
-    if(reloc_table.SizeOfBlock % 2)
-        throw pe_exception("Incorrect relocation directory", pe_exception::incorrect_relocation_directory);
-
     uint32_t reloc_size = pe.get_directory_size(image_directory_entry_basereloc);
     uint32_t read_size = 0;
 
     //reloc_table.VirtualAddress is not checked (not so important)
     while(reloc_table.SizeOfBlock && read_size < reloc_size)
     {
+        if(reloc_table.SizeOfBlock % 2)
+            throw pe_exception("Incorrect relocation directory", pe_exception::incorrect_relocation_directory);
+
         //Create relocation table
         relocation_table table;
         //Save RVA
-- 
2.43.0


From 47873355c1b1d2561cfa314afe6dec352abf1114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 07/76] fix: leave the image unchanged when rebasing fails

A relocation pointing outside of section data was found only after the
preceding ones had been applied.
---
 src/pe_lib/pe_relocations.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pe_lib/pe_relocations.cpp b/src/pe_lib/pe_relocations.cpp
index 97f6c54..42d54db 100644
--- a/src/pe_lib/pe_relocations.cpp
+++ b/src/pe_lib/pe_relocations.cpp
@@ -273,6 +273,18 @@ void rebase_image_base(pe_base& pe, const relocation_table_list& tables, uint64_
     //ImageBase difference
     typename PEClassType::BaseSize base_rel = static_cast<typename PEClassType::BaseSize>(static_cast<int64_t>(new_base) - image_base);
 
+    //Check all relocations before changing anything
+    for(relocation_table_list::const_iterator it = tables.begin(); it != tables.end(); ++it)
+    {
+        const relocation_table::relocation_list& relocs = (*it).get_relocations();
+
+        for(relocation_table::relocation_list::const_iterator rel = relocs.begin(); rel != relocs.end(); ++rel)
+        {
+            if((*rel).get_type() != pe_win::image_rel_based_absolute)
+                pe.section_data_from_rva<typename PEClassType::BaseSize>((*it).get_rva() + (*rel).get_rva(), section_data_raw, true);
+        }
+    }
+
     //We need to fix addresses from relocation tables
     //Enumerate relocation tables
     for(relocation_table_list::const_iterator it = tables.begin(); it != tables.end(); ++it)
-- 
2.43.0


From 7c5eea65fdf8851197ba0b0cdc39003564c63f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 08/76] fix: do not read past the DOS stub when looking for
 rich data

---
 src/pe_lib/pe_rich_data.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/pe_lib/pe_rich_data.cpp b/src/pe_lib/pe_rich_data.cpp
index 807915c..017d747 100644
--- a/src/pe_lib/pe_rich_data.cpp
+++ b/src/pe_lib/pe_rich_data.cpp
@@ -60,7 +60,7 @@ const rich_data_list get_rich_data(const pe_base& pe)
     //Search for rich data overlay ID
     const char* begin = &rich_overlay[0];
     const char* end = begin + rich_overlay.length();
-    for(; begin != end; ++begin)
+    for(; static_cast<size_t>(end - begin) >= sizeof(uint32_t); ++begin)
     {
         if(*reinterpret_cast<const uint32_t*>(begin) == rich_overlay_id)
         {
@@ -73,7 +73,7 @@ const rich_data_list get_rich_data(const pe_base& pe)
     if(found)
     {
         //Check remaining length
-        if(static_cast<size_t>(end - begin) < sizeof(uint32_t))
+        if(static_cast<size_t>(end - begin) < sizeof(uint32_t) * 2)
             return ret;
 
         //The XOR key is after "Rich" word, we should get it
@@ -84,7 +84,7 @@ const rich_data_list get_rich_data(const pe_base& pe)
 
         //Second search for signature "DanS"
         begin = &rich_overlay[0];
-        for(; begin != end; ++begin)
+        for(; static_cast<size_t>(end - begin) >= sizeof(uint32_t); ++begin)
         {
             if((*reinterpret_cast<const uint32_t*>(begin) ^ xorkey) == 0x536e6144) //"DanS"
             {
@@ -96,13 +96,15 @@ const rich_data_list get_rich_data(const pe_base& pe)
         //If second signature is found
         if(found)
         {
-            begin += sizeof(uint32_t) * 3;
+            //Skip "DanS" and three padding words
+            const size_t header_size = sizeof(uint32_t) * 4;
+            if(static_cast<size_t>(end - begin) < header_size)
+                return ret;
+
+            begin += header_size;
             //List all rich data structures
-            while(begin < end)
+            while(static_cast<size_t>(end - begin) >= sizeof(uint32_t) * 2)
             {
-                begin += sizeof(uint32_t);
-                if(begin >= end)
-                    break;
 
                 //Check for rich overlay data end ("Rich" word reached)
                 if(*reinterpret_cast<const uint32_t*>(begin) == rich_overlay_id)
@@ -114,11 +116,10 @@ const rich_data_list get_rich_data(const pe_base& pe)
                 data.set_version((*reinterpret_cast<const uint32_t*>(begin) ^ xorkey) & 0xFFFF);
 
                 begin += sizeof(uint32_t);
-                if(begin >= end)
-                    break;
-
                 data.set_times(*reinterpret_cast<const uint32_t*>(begin) ^ xorkey);
 
+                begin += sizeof(uint32_t);
+
                 //Save rich data structure
                 ret.push_back(data);
             }
-- 
2.43.0


From 7a495197d62f4f72434234a898762ea1701748d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 09/76] fix: refuse to rewrite import tables before changing
 anything

Rewriting saved (original) IATs threw in the middle, leaving tables pointing to
strings outside of the section's stated size, and refused tables which end
exactly at the section end.
---
 src/pe_lib/pe_imports.cpp | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index 51b5b3f..c36a0ed 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -459,6 +459,25 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
         (import_section.empty() || pe_utils::align_up(import_section.get_size_of_raw_data(), pe.get_file_alignment()) < needed_size + import_settings.get_offset_from_section_start()))
         throw pe_exception("Insufficient space for import directory", pe_exception::insufficient_space);
 
+    //If we're going to rewrite contents of saved IATs and original IATs, check that they have enough place
+    //before changing anything
+    if(import_settings.save_iat_and_original_iat_rvas() && import_settings.rewrite_iat_and_original_iat_contents())
+    {
+        for(imported_functions_list::const_iterator it = imports.begin(); it != imports.end(); ++it)
+        {
+            if(!(*it).get_rva_to_iat())
+                continue;
+
+            const uint32_t tables[2] = { (*it).get_rva_to_iat(), import_settings.build_original_iat() ? (*it).get_rva_to_original_iat() : 0 };
+            for(int i = 0; i != 2; ++i)
+            {
+                if(tables[i] && pe.section_data_length_from_rva(tables[i], tables[i], section_data_raw, true)
+                    / sizeof(typename PEClassType::BaseSize) < (*it).get_imported_functions().size() + 1 /* ending null */)
+                    throw pe_exception(i == 0 ? "Insufficient space inside initial IAT" : "Insufficient space inside initial original IAT", pe_exception::insufficient_space);
+            }
+        }
+    }
+
     std::string& raw_data = import_section.get_raw_data();
 
     //This will be done only if image_section is the last section of image or for section with unaligned raw length of data
@@ -555,7 +574,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
 
                         if(rewrite_saved_iat)
                         {
-                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) <= sizeof(iat_value))
+                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) < sizeof(iat_value))
                                 throw pe_exception("Insufficient space inside initial IAT", pe_exception::insufficient_space);
 
                             memcpy(pe.section_data_from_rva(first_thunk, true), &iat_value, sizeof(iat_value));
@@ -573,7 +592,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                         //Else - write to IAT RVA of IMAGE_IMPORT_BY_NAME
                         if(rewrite_saved_iat)
                         {
-                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) <= sizeof(rva_of_named_import))
+                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) < sizeof(rva_of_named_import))
                                 throw pe_exception("Insufficient space inside initial IAT", pe_exception::insufficient_space);
 
                             memcpy(pe.section_data_from_rva(first_thunk, true), &rva_of_named_import, sizeof(rva_of_named_import));
@@ -592,7 +611,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                 {
                     if(rewrite_saved_original_iat)
                     {
-                        if(pe.section_data_length_from_rva(original_first_thunk, original_first_thunk, section_data_raw, true) <= sizeof(rva_of_named_import))
+                        if(pe.section_data_length_from_rva(original_first_thunk, original_first_thunk, section_data_raw, true) < sizeof(rva_of_named_import))
                             throw pe_exception("Insufficient space inside initial original IAT", pe_exception::insufficient_space);
 
                         memcpy(pe.section_data_from_rva(original_first_thunk, true), &rva_of_named_import, sizeof(rva_of_named_import));
@@ -628,7 +647,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                         typename PEClassType::BaseSize iat_value = static_cast<typename PEClassType::BaseSize>((*f).get_iat_va());
                         if(rewrite_saved_iat)
                         {
-                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) <= sizeof(iat_value))
+                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) < sizeof(iat_value))
                                 throw pe_exception("Insufficient space inside initial IAT", pe_exception::insufficient_space);
 
                             memcpy(pe.section_data_from_rva(first_thunk, true), &iat_value, sizeof(iat_value));
@@ -646,7 +665,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                         //Else - write ordinal to IAT
                         if(rewrite_saved_iat)
                         {
-                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) <= sizeof(thunk_value))
+                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) < sizeof(thunk_value))
                                 throw pe_exception("Insufficient space inside initial IAT", pe_exception::insufficient_space);
 
                             memcpy(pe.section_data_from_rva(first_thunk, true), &thunk_value, sizeof(thunk_value));
@@ -665,7 +684,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                 {
                     if(rewrite_saved_original_iat)
                     {
-                        if(pe.section_data_length_from_rva(original_first_thunk, original_first_thunk, section_data_raw, true) <= sizeof(thunk_value))
+                        if(pe.section_data_length_from_rva(original_first_thunk, original_first_thunk, section_data_raw, true) < sizeof(thunk_value))
                             throw pe_exception("Insufficient space inside initial original IAT", pe_exception::insufficient_space);
 
                         memcpy(pe.section_data_from_rva(original_first_thunk, true), &thunk_value, sizeof(thunk_value));
@@ -688,7 +707,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
 
             if(rewrite_saved_iat)
             {
-                if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) <= sizeof(thunk_value))
+                if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) < sizeof(thunk_value))
                     throw pe_exception("Insufficient space inside initial IAT", pe_exception::insufficient_space);
 
                 memcpy(pe.section_data_from_rva(first_thunk, true), &thunk_value, sizeof(thunk_value));
@@ -709,7 +728,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
 
             if(rewrite_saved_original_iat)
             {
-                if(pe.section_data_length_from_rva(original_first_thunk, original_first_thunk, section_data_raw, true) <= sizeof(thunk_value))
+                if(pe.section_data_length_from_rva(original_first_thunk, original_first_thunk, section_data_raw, true) < sizeof(thunk_value))
                     throw pe_exception("Insufficient space inside initial original IAT", pe_exception::insufficient_space);
 
                 memcpy(pe.section_data_from_rva(original_first_thunk, true), &thunk_value, sizeof(thunk_value));
-- 
2.43.0


From 73d9e7034d42c20a64875145f25aac3550867583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 10/76] fix: write every ordinal import when no original IAT is
 built

---
 src/pe_lib/pe_imports.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index c36a0ed..e9e279d 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -675,6 +675,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                         else
                         {
                             memcpy(&raw_data[current_pos_for_iat], &thunk_value, sizeof(thunk_value));
+                            current_pos_for_iat += sizeof(thunk_value);
                         }
                     }
                 }
-- 
2.43.0


From 32ea5e93f756deb46e8c6226d94b508cb7223bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 11/76] fix: do not cut section data following rebuilt imports

---
 src/pe_lib/pe_imports.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index e9e279d..3ccc45b 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <string.h>
 #include "pe_imports.h"
 #include "pe_properties_generic.h"
@@ -479,6 +480,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
     }
 
     std::string& raw_data = import_section.get_raw_data();
+    const size_t original_raw_length = raw_data.length();
 
     //This will be done only if image_section is the last section of image or for section with unaligned raw length of data
     if(raw_data.length() < needed_size + import_settings.get_offset_from_section_start())
@@ -753,7 +755,8 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
 
     //Strip data a little, if we saved some place
     //We're allocating more space than needed, if present original IAT and IAT are saved
-    raw_data.resize(current_pos_for_original_iat);
+    //Section data which was there before rebuilding is never cut
+    raw_data.resize(std::max<size_t>(current_pos_for_original_iat, original_raw_length));
 
     //Adjust section raw and virtual sizes
     pe.recalculate_section_sizes(import_section, import_settings.auto_strip_last_section_enabled());
-- 
2.43.0


From af29feb6a43a2f9b5f8e2527c5a05c2275c455f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:57 +0000
Subject: [PATCH 12/76] fix: read back forwarded exports which have no name

---
 src/pe_lib/pe_exports.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/pe_lib/pe_exports.cpp b/src/pe_lib/pe_exports.cpp
index 10ee7f0..8a29fd9 100644
--- a/src/pe_lib/pe_exports.cpp
+++ b/src/pe_lib/pe_exports.cpp
@@ -383,26 +383,26 @@ const exported_functions_list get_exported_functions(const pe_base& pe, export_i
                     func.set_name(func_name);
                     func.set_name_ordinal(ordinal2);
 
-                    //If the function is just a redirect, save its name
-                    if(rva >= pe.get_directory_rva(image_directory_entry_export) + sizeof(image_directory_entry_export) &&
-                        rva < pe.get_directory_rva(image_directory_entry_export) + pe.get_directory_size(image_directory_entry_export))
-                    {
-                        if((max_name_length = pe.section_data_length_from_rva(rva, rva, section_data_virtual, true)) < 2)
-                            throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
+                    break;
+                }
+            }
 
-                        //Get forwarded function name pointer
-                        const char* forwarded_func_name = pe.section_data_from_rva(rva, section_data_virtual, true);
+            //If the function is just a redirect, save its name
+            if(rva >= pe.get_directory_rva(image_directory_entry_export) + sizeof(image_directory_entry_export) &&
+                rva < pe.get_directory_rva(image_directory_entry_export) + pe.get_directory_size(image_directory_entry_export))
+            {
+                if((max_name_length = pe.section_data_length_from_rva(rva, rva, section_data_virtual, true)) < 2)
+                    throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
 
-                        //Check for null-termination
-                        if(!pe_utils::is_null_terminated(forwarded_func_name, max_name_length))
-                            throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
+                //Get forwarded function name pointer
+                const char* forwarded_func_name = pe.section_data_from_rva(rva, section_data_virtual, true);
 
-                        //Set the name of forwarded function
-                        func.set_forwarded_name(forwarded_func_name);
-                    }
+                //Check for null-termination
+                if(!pe_utils::is_null_terminated(forwarded_func_name, max_name_length))
+                    throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
 
-                    break;
-                }
+                //Set the name of forwarded function
+                func.set_forwarded_name(forwarded_func_name);
             }
 
             //Add function info to output array
-- 
2.43.0


From faf8c65619cb1c5645586206808d1b19afcf9771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:57 +0000
Subject: [PATCH 13/76] fix: rebuild empty export lists with any ordinal base

---
 src/pe_lib/pe_exports.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_exports.cpp b/src/pe_lib/pe_exports.cpp
index 8a29fd9..5c1eab6 100644
--- a/src/pe_lib/pe_exports.cpp
+++ b/src/pe_lib/pe_exports.cpp
@@ -537,7 +537,9 @@ const image_directory rebuild_exports(pe_base& pe, const export_info& info, expo
     needed_size_for_strings += needed_size_for_function_forwards;
     uint32_t needed_size_for_function_name_ordinals = number_of_names * sizeof(uint16_t);
     uint32_t needed_size_for_function_name_rvas = number_of_names * sizeof(uint32_t);
-    uint32_t needed_size_for_function_addresses = (max_ordinal - ordinal_base + 1) * sizeof(uint32_t);
+    //Number of functions, including skipped ordinals
+    uint32_t number_of_functions = exports.empty() ? 0 : max_ordinal - ordinal_base + 1;
+    uint32_t needed_size_for_function_addresses = number_of_functions * sizeof(uint32_t);
     
     //Export directory header will be placed first
     uint32_t directory_pos = pe_utils::align_up(offset_from_section_start, sizeof(uint32_t));
@@ -580,7 +582,7 @@ const image_directory rebuild_exports(pe_base& pe, const export_info& info, expo
         dir.MajorVersion = info.get_major_version();
         dir.MinorVersion = info.get_minor_version();
         dir.TimeDateStamp = info.get_timestamp();
-        dir.NumberOfFunctions = max_ordinal - ordinal_base + 1;
+        dir.NumberOfFunctions = number_of_functions;
         dir.NumberOfNames = number_of_names;
         dir.Base = ordinal_base;
         dir.AddressOfFunctions = pe.rva_from_section_offset(exports_section, current_pos_of_function_addresses);
-- 
2.43.0


From a79830ad0b03df9be73d583301e1a708c8245196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:57 +0000
Subject: [PATCH 14/76] fix: do not point to export name tables which do not
 exist

---
 src/pe_lib/pe_exports.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_exports.cpp b/src/pe_lib/pe_exports.cpp
index 5c1eab6..c038f79 100644
--- a/src/pe_lib/pe_exports.cpp
+++ b/src/pe_lib/pe_exports.cpp
@@ -586,8 +586,9 @@ const image_directory rebuild_exports(pe_base& pe, const export_info& info, expo
         dir.NumberOfNames = number_of_names;
         dir.Base = ordinal_base;
         dir.AddressOfFunctions = pe.rva_from_section_offset(exports_section, current_pos_of_function_addresses);
-        dir.AddressOfNameOrdinals = pe.rva_from_section_offset(exports_section, current_pos_of_function_name_ordinals);
-        dir.AddressOfNames = pe.rva_from_section_offset(exports_section, current_pos_of_function_names_rvas);
+        //If there are no named functions, their tables do not exist
+        dir.AddressOfNameOrdinals = number_of_names ? pe.rva_from_section_offset(exports_section, current_pos_of_function_name_ordinals) : 0;
+        dir.AddressOfNames = number_of_names ? pe.rva_from_section_offset(exports_section, current_pos_of_function_names_rvas) : 0;
         dir.Name = pe.rva_from_section_offset(exports_section, directory_pos + sizeof(image_export_directory));
 
         //Save it
-- 
2.43.0


From 14f0891c9d14a353a81411cee6a7aa7a01f832b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 15/76] fix: terminate rebuilt bound import directory

---
 src/pe_lib/pe_bound_import.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pe_lib/pe_bound_import.cpp b/src/pe_lib/pe_bound_import.cpp
index 985ebf4..97d1741 100644
--- a/src/pe_lib/pe_bound_import.cpp
+++ b/src/pe_lib/pe_bound_import.cpp
@@ -273,6 +273,9 @@ const image_directory rebuild_bound_imports(pe_base& pe, const bound_import_modu
         }
     }
 
+    //Ending null descriptor
+    memset(&raw_data[current_pos_for_structures], 0, sizeof(image_bound_import_descriptor));
+
     //Adjust section raw and virtual sizes
     pe.recalculate_section_sizes(imports_section, auto_strip_last_section);
     
-- 
2.43.0


From 1be03175fd59aa2db954911361028e3a81012faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 16/76] fix: read bound imports which end in the zero-filled
 part of a section

---
 src/pe_lib/pe_bound_import.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_bound_import.cpp b/src/pe_lib/pe_bound_import.cpp
index 97d1741..18bbedc 100644
--- a/src/pe_lib/pe_bound_import.cpp
+++ b/src/pe_lib/pe_bound_import.cpp
@@ -115,12 +115,12 @@ const bound_import_module_list get_bound_import_module_list(const pe_base& pe)
         return ret;
 
     uint32_t bound_import_data_len =
-        pe.section_data_length_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), pe.get_directory_rva(image_directory_entry_bound_import), section_data_raw, true);
+        pe.section_data_length_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), pe.get_directory_rva(image_directory_entry_bound_import), section_data_virtual, true);
 
     if(bound_import_data_len < pe.get_directory_size(image_directory_entry_bound_import))
         throw pe_exception("Incorrect bound import directory", pe_exception::incorrect_bound_import_directory);
     
-    const char* bound_import_data = pe.section_data_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), section_data_raw, true);
+    const char* bound_import_data = pe.section_data_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), section_data_virtual, true);
 
     //Check read in "read_pe" function raw bound import data size
     if(bound_import_data_len < sizeof(image_bound_import_descriptor))
-- 
2.43.0


From be869d826ed678295e68b017213cd5249d8079f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 17/76] fix: refuse bound imports which do not fit 16-bit
 offsets

---
 src/pe_lib/pe_bound_import.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe_lib/pe_bound_import.cpp b/src/pe_lib/pe_bound_import.cpp
index 18bbedc..fc8ad15 100644
--- a/src/pe_lib/pe_bound_import.cpp
+++ b/src/pe_lib/pe_bound_import.cpp
@@ -226,6 +226,10 @@ const image_directory rebuild_bound_imports(pe_base& pe, const bound_import_modu
     }
     
     needed_size += needed_size_for_strings;
+
+    //All offsets inside bound import directory and reference counts are 16-bit
+    if(needed_size > pe_utils::max_word)
+        throw pe_exception("Bound import directory is too long", pe_exception::incorrect_bound_import_directory);
     
     //Check if imports_section is last one. If it's not, check if there's enough place for bound import data
     if(&imports_section != &*(pe.get_image_sections().end() - 1) && 
-- 
2.43.0


From 955e8e0c9bae24f02b8d28ca296ca4b6ea3c2a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 18/76] fix: read load config tables which end in the
 zero-filled part of a section

---
 src/pe_lib/pe_load_config.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_load_config.cpp b/src/pe_lib/pe_load_config.cpp
index 10a79bc..bdc7de4 100644
--- a/src/pe_lib/pe_load_config.cpp
+++ b/src/pe_lib/pe_load_config.cpp
@@ -359,7 +359,7 @@ const image_config_info get_image_config_base(const pe_base& pe)
 
     //Read sorted SE handler RVA list (if any)
     for(typename PEClassType::BaseSize i = 0; i != config_info.SEHandlerCount; ++i)
-        ret.add_se_handler_rva(pe.section_data_from_va<uint32_t>(static_cast<typename PEClassType::BaseSize>(config_info.SEHandlerTable + i * sizeof(uint32_t))));
+        ret.add_se_handler_rva(pe.section_data_from_va<uint32_t>(static_cast<typename PEClassType::BaseSize>(config_info.SEHandlerTable + i * sizeof(uint32_t)), section_data_virtual));
 
     if(config_info.LockPrefixTable)
     {
@@ -367,7 +367,7 @@ const image_config_info get_image_config_base(const pe_base& pe)
         uint32_t current = 0;
         while(true)
         {
-            typename PEClassType::BaseSize lock_prefix_va = pe.section_data_from_va<typename PEClassType::BaseSize>(static_cast<typename PEClassType::BaseSize>(config_info.LockPrefixTable + current * sizeof(typename PEClassType::BaseSize)));
+            typename PEClassType::BaseSize lock_prefix_va = pe.section_data_from_va<typename PEClassType::BaseSize>(static_cast<typename PEClassType::BaseSize>(config_info.LockPrefixTable + current * sizeof(typename PEClassType::BaseSize)), section_data_virtual);
             if(!lock_prefix_va)
                 break;
 
-- 
2.43.0


From 76e3d6b2c0d9d4bfd9118fd706a9b72258418bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 19/76] fix: do not write the end of TLS callbacks outside of
 raw section data

---
 src/pe_lib/pe_tls.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_tls.cpp b/src/pe_lib/pe_tls.cpp
index e639cb0..0a94725 100644
--- a/src/pe_lib/pe_tls.cpp
+++ b/src/pe_lib/pe_tls.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <string.h>
 #include "pe_tls.h"
 #include "pe_properties_generic.h"
@@ -354,8 +355,9 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
         //Ending null element
         callbacks_virtual_addresses.push_back(0);
 
-        //Write callbacks TLS data
-        memcpy(pe.section_data_from_rva(info.get_callbacks_rva(), true), &callbacks_virtual_addresses[0], needed_callback_size);
+        //Write callbacks TLS data (last zero element can be virtual only)
+        memcpy(pe.section_data_from_rva(info.get_callbacks_rva(), true), &callbacks_virtual_addresses[0],
+            std::min<uint32_t>(needed_callback_size, pe.section_data_length_from_rva(info.get_callbacks_rva(), info.get_callbacks_rva(), section_data_raw, true)));
     }
     
     //Adjust section raw and virtual sizes
-- 
2.43.0


From 87ae041aca73b409172ea9e1b9e5431488adf27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 20/76] fix: do not read TLS raw data outside of its buffer

---
 src/pe_lib/pe_tls.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe_lib/pe_tls.cpp b/src/pe_lib/pe_tls.cpp
index 0a94725..7988ae6 100644
--- a/src/pe_lib/pe_tls.cpp
+++ b/src/pe_lib/pe_tls.cpp
@@ -311,6 +311,10 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
                 write_raw_data_size = available_raw_length; //We'll write just a part of full raw data
         }
 
+        //Never read more raw TLS data than was supplied
+        if(write_raw_data_size > info.get_raw_data().length())
+            write_raw_data_size = static_cast<uint32_t>(info.get_raw_data().length());
+
         //Write raw TLS data, if any
         if(write_raw_data_size != 0)
             memcpy(pe.section_data_from_rva(info.get_raw_data_start_rva(), true), info.get_raw_data().data(), write_raw_data_size);
-- 
2.43.0


From 52e47b58da5b0fbd4faddc697c8c1c0809042041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 21/76] fix: keep section data intact when mapping it fails

---
 src/pe_lib/pe_section.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_section.cpp b/src/pe_lib/pe_section.cpp
index bd5079d..b5ce009 100644
--- a/src/pe_lib/pe_section.cpp
+++ b/src/pe_lib/pe_section.cpp
@@ -117,8 +117,8 @@ std::string& section::get_raw_data()
 //Sets raw section data from file image
 void section::set_raw_data(const std::string& data)
 {
-    old_size_ = static_cast<size_t>(-1);
     raw_data_ = data;
+    old_size_ = static_cast<size_t>(-1);
 }
 
 //Returns raw section data from file image
@@ -148,8 +148,9 @@ void section::map_virtual(uint32_t section_alignment) const
     uint32_t aligned_virtual_size = get_aligned_virtual_size(section_alignment);
     if(old_size_ == static_cast<size_t>(-1) && aligned_virtual_size && aligned_virtual_size > raw_data_.length())
     {
-        old_size_ = raw_data_.length();
+        const size_t raw_size = raw_data_.length();
         raw_data_.resize(aligned_virtual_size, 0);
+        old_size_ = raw_size;
     }
 }
 
-- 
2.43.0


From 845b4e2982bb6599d836545c5f30768f6763cd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 22/76] fix: keep section sizes consistent when rebuilding a
 directory fails

---
 src/pe_lib/pe_exports.cpp     | 3 +++
 src/pe_lib/pe_imports.cpp     | 3 +++
 src/pe_lib/pe_load_config.cpp | 3 +++
 src/pe_lib/pe_resources.cpp   | 3 +++
 src/pe_lib/pe_tls.cpp         | 3 +++
 5 files changed, 15 insertions(+)

diff --git a/src/pe_lib/pe_exports.cpp b/src/pe_lib/pe_exports.cpp
index c038f79..2a987be 100644
--- a/src/pe_lib/pe_exports.cpp
+++ b/src/pe_lib/pe_exports.cpp
@@ -564,6 +564,9 @@ const image_directory rebuild_exports(pe_base& pe, const export_info& info, expo
     if(raw_data.length() < needed_size + directory_pos)
         raw_data.resize(needed_size + directory_pos); //Expand section raw data
 
+    //Keep section sizes consistent with its data even if rebuilding fails later
+    pe.recalculate_section_sizes(exports_section, false);
+
     //Library name will be placed after it
     uint32_t current_pos_of_function_names = static_cast<uint32_t>(info.get_name().length() + 1 + directory_pos + sizeof(image_export_directory));
     //Next - function names
diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index 3ccc45b..2545d90 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -485,6 +485,9 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
     //This will be done only if image_section is the last section of image or for section with unaligned raw length of data
     if(raw_data.length() < needed_size + import_settings.get_offset_from_section_start())
         raw_data.resize(needed_size + import_settings.get_offset_from_section_start()); //Expand section raw data
+
+    //Keep section sizes consistent with its data even if rebuilding fails later
+    pe.recalculate_section_sizes(import_section, false);
     
     uint32_t current_string_pointer = import_settings.get_offset_from_section_start();/* we will paste structures after strings */
     
diff --git a/src/pe_lib/pe_load_config.cpp b/src/pe_lib/pe_load_config.cpp
index bdc7de4..447def3 100644
--- a/src/pe_lib/pe_load_config.cpp
+++ b/src/pe_lib/pe_load_config.cpp
@@ -423,6 +423,9 @@ const image_directory rebuild_image_config_base(pe_base& pe, const image_config_
     if(raw_data.length() < needed_size + image_config_data_pos)
         raw_data.resize(needed_size + image_config_data_pos); //Expand section raw data
 
+    //Keep section sizes consistent with its data even if rebuilding fails later
+    pe.recalculate_section_sizes(image_config_section, false);
+
     //Create and fill Image Config structure
     typename PEClassType::ConfigStruct image_config_section_struct = {0};
     image_config_section_struct.Size = sizeof(image_config_section_struct);
diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index c4dfec8..0454d45 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -608,6 +608,9 @@ const image_directory rebuild_resources(pe_base& pe, resource_directory& info, s
     if(raw_data.length() < needed_size + aligned_offset_from_section_start)
         raw_data.resize(needed_size + aligned_offset_from_section_start); //Expand section raw data
 
+    //Keep section sizes consistent with its data even if rebuilding fails later
+    pe.recalculate_section_sizes(resources_section, false);
+
     uint32_t current_structures_pos = aligned_offset_from_section_start;
     uint32_t current_strings_pos = current_structures_pos + needed_size_for_structures;
     uint32_t current_data_pos = current_strings_pos + needed_size_for_strings;
diff --git a/src/pe_lib/pe_tls.cpp b/src/pe_lib/pe_tls.cpp
index 7988ae6..27bb49e 100644
--- a/src/pe_lib/pe_tls.cpp
+++ b/src/pe_lib/pe_tls.cpp
@@ -251,6 +251,9 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
     if(raw_data.length() < needed_size + tls_data_pos)
         raw_data.resize(needed_size + tls_data_pos); //Expand section raw data
 
+    //Keep section sizes consistent with its data even if rebuilding fails later
+    pe.recalculate_section_sizes(tls_section, false);
+
     //Create and fill TLS structure
     typename PEClassType::TLSStruct tls_struct = {0};
     
-- 
2.43.0


From 4c0bef682102162203bfa1a700e7eca73691c28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 23/76] fix: read debug directories which end at the section
 end

---
 src/pe_lib/pe_debug.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 24c413b..7e24e8f 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -844,6 +844,11 @@ const debug_info_list get_debug_information(const pe_base& pe)
 
         //Go to next debug entry
         current_pos += sizeof(image_debug_directory);
+
+        //Do not read anything after the end of debug directory
+        if(current_pos >= pe.get_directory_rva(image_directory_entry_debug) + pe.get_directory_size(image_directory_entry_debug))
+            break;
+
         directory = pe.section_data_from_rva<image_debug_directory>(current_pos, section_data_virtual, true);
     }
 
-- 
2.43.0


From 74810f999b17df289b661fca287ec39751c7c156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:54 +0000
Subject: [PATCH 24/76] fix: keep saving header bound imports after headers
 became shorter

---
 src/pe_lib/pe_rebuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index 450aa0f..fe58e38 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -90,7 +90,7 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
         throw pe_exception("Stream is bad", pe_exception::stream_is_bad);
 
     uint32_t original_bound_import_rva = pe.has_bound_import() ? pe.get_directory_rva(image_directory_entry_bound_import) : 0;
-    if(original_bound_import_rva && original_bound_import_rva > pe.get_size_of_headers())
+    if(original_bound_import_rva && original_bound_import_rva >= pe.get_full_headers_data().length())
     {
         //No need to do anything with bound import directory
         //if it is placed inside of any section, not headers
-- 
2.43.0


From c42d60703e4b29461536adabfc5993c930339790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:58 +0000
Subject: [PATCH 25/76] fix: free image properties when loading fails

---
 src/pe_lib/pe_base.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 7dcff57..803a8f3 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -3,6 +3,7 @@
 #include <istream>
 #include <ostream>
 #include <algorithm>
+#include <memory>
 #include <cmath>
 #include <set>
 #include <string.h>
@@ -16,12 +17,14 @@ using namespace pe_win;
 //Constructor
 pe_base::pe_base(std::istream& file, const pe_properties& props, bool is_file_from_mem, bool read_debug_raw_data)
 {
-    props_ = props.duplicate().release();
-
     //Save istream state
     std::ios_base::iostate state = file.exceptions();
     std::streamoff old_offset = file.tellg();
 
+    //Image properties will be freed if something goes wrong
+    std::unique_ptr<pe_properties> props_copy = props.duplicate();
+    props_ = props_copy.get();
+
     try
     {
         file.exceptions(std::ios::goodbit);
@@ -43,6 +46,8 @@ pe_base::pe_base(std::istream& file, const pe_properties& props, bool is_file_fr
     file.seekg(old_offset);
     file.exceptions(state);
     file.clear();
+
+    props_copy.release();
 }
 
 pe_base::pe_base(const pe_properties& props, uint32_t section_alignment, bool dll, uint16_t subsystem)
-- 
2.43.0


From a82ddbcead1cdf8975e3193cbdc5dab7465320a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 26/76] fix: hand back input streams in the state they were
 lent in

---
 src/pe_lib/pe_base.cpp     | 84 ++++++++++-------------------------
 src/pe_lib/pe_checksum.cpp | 90 +++++++++++++++-----------------------
 src/pe_lib/utils.cpp       | 25 +++++++++++
 src/pe_lib/utils.h         | 17 +++++++
 4 files changed, 100 insertions(+), 116 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 803a8f3..f428437 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -17,35 +17,16 @@ using namespace pe_win;
 //Constructor
 pe_base::pe_base(std::istream& file, const pe_properties& props, bool is_file_from_mem, bool read_debug_raw_data)
 {
-    //Save istream state
-    std::ios_base::iostate state = file.exceptions();
-    std::streamoff old_offset = file.tellg();
+    //Istream state will be restored in any case
+    pe_utils::istream_state_saver saver(file);
 
     //Image properties will be freed if something goes wrong
     std::unique_ptr<pe_properties> props_copy = props.duplicate();
     props_ = props_copy.get();
 
-    try
-    {
-        file.exceptions(std::ios::goodbit);
-        //Read DOS header, PE headers and section data
-        read_dos_header(file);
-        read_pe(file, read_debug_raw_data, is_file_from_mem);
-    }
-    catch(const std::exception&)
-    {
-        //If something went wrong, restore istream state
-        file.seekg(old_offset);
-        file.exceptions(state);
-        file.clear();
-        //Rethrow
-        throw;
-    }
-
-    //Restore istream state
-    file.seekg(old_offset);
-    file.exceptions(state);
-    file.clear();
+    //Read DOS header, PE headers and section data
+    read_dos_header(file);
+    read_pe(file, read_debug_raw_data, is_file_from_mem);
 
     props_copy.release();
 }
@@ -1046,50 +1027,31 @@ pe_type pe_base::get_pe_type() const
 //Returns PE type (PE or PE+) from pe_type enumeration (minimal correctness checks)
 pe_type pe_base::get_pe_type(std::istream& file)
 {
-    //Save state of the istream
-    std::ios_base::iostate state = file.exceptions();
-    std::streamoff old_offset = file.tellg();
+    //Istream state will be restored in any case
+    pe_utils::istream_state_saver saver(file);
     image_nt_headers32 nt_headers;
     image_dos_header header;
 
-    try
-    {
-        //Read dos header
-        file.exceptions(std::ios::goodbit);
-        read_dos_header(file, header);
-
-        //Seek to the NT headers start
-        file.seekg(header.e_lfanew);
-        if(file.bad() || file.fail())
-            throw pe_exception("Cannot reach IMAGE_NT_HEADERS", pe_exception::image_nt_headers_not_found);
+    //Read dos header
+    read_dos_header(file, header);
 
-        //Read NT headers (we're using 32-bit version, because there's no significant differencies between 32 and 64 bit version structures)
-        file.read(reinterpret_cast<char*>(&nt_headers), sizeof(image_nt_headers32) - sizeof(image_data_directory) * image_numberof_directory_entries);
-        if(file.bad() || file.eof())
-            throw pe_exception("Error reading IMAGE_NT_HEADERS", pe_exception::error_reading_image_nt_headers);
+    //Seek to the NT headers start
+    file.seekg(header.e_lfanew);
+    if(file.bad() || file.fail())
+        throw pe_exception("Cannot reach IMAGE_NT_HEADERS", pe_exception::image_nt_headers_not_found);
 
-        //Check NT headers signature
-        if(nt_headers.Signature != 0x4550) //"PE"
-            throw pe_exception("Incorrect PE signature", pe_exception::pe_signature_incorrect);
+    //Read NT headers (we're using 32-bit version, because there's no significant differencies between 32 and 64 bit version structures)
+    file.read(reinterpret_cast<char*>(&nt_headers), sizeof(image_nt_headers32) - sizeof(image_data_directory) * image_numberof_directory_entries);
+    if(file.bad() || file.eof())
+        throw pe_exception("Error reading IMAGE_NT_HEADERS", pe_exception::error_reading_image_nt_headers);
 
-        //Check NT headers magic
-        if(nt_headers.OptionalHeader.Magic != image_nt_optional_hdr32_magic && nt_headers.OptionalHeader.Magic != image_nt_optional_hdr64_magic)
-            throw pe_exception("Incorrect PE signature", pe_exception::pe_signature_incorrect);
-    }
-    catch(const std::exception&)
-    {
-        //If something went wrong, restore istream state
-        file.exceptions(state);
-        file.seekg(old_offset);
-        file.clear();
-        //Retrhow exception
-        throw;
-    }
+    //Check NT headers signature
+    if(nt_headers.Signature != 0x4550) //"PE"
+        throw pe_exception("Incorrect PE signature", pe_exception::pe_signature_incorrect);
 
-    //Restore stream state
-    file.exceptions(state);
-    file.seekg(old_offset);
-    file.clear();
+    //Check NT headers magic
+    if(nt_headers.OptionalHeader.Magic != image_nt_optional_hdr32_magic && nt_headers.OptionalHeader.Magic != image_nt_optional_hdr64_magic)
+        throw pe_exception("Incorrect PE signature", pe_exception::pe_signature_incorrect);
 
     //Determine PE type and return it
     return nt_headers.OptionalHeader.Magic == image_nt_optional_hdr64_magic ? pe_type_64 : pe_type_32;
diff --git a/src/pe_lib/pe_checksum.cpp b/src/pe_lib/pe_checksum.cpp
index 2125780..f6ff06a 100644
--- a/src/pe_lib/pe_checksum.cpp
+++ b/src/pe_lib/pe_checksum.cpp
@@ -9,72 +9,52 @@ using namespace pe_win;
 //Calculate checksum of image
 uint32_t calculate_checksum(std::istream& file)
 {
-    //Save istream state
-    std::ios_base::iostate state = file.exceptions();
-    std::streamoff old_offset = file.tellg();
+    //Istream state will be restored in any case
+    pe_utils::istream_state_saver saver(file);
 
     //Checksum value
     uint64_t checksum = 0;
 
-    try
-    {
-        image_dos_header header;
-
-        file.exceptions(std::ios::goodbit);
-
-        //Read DOS header
-        pe_base::read_dos_header(file, header);
-
-        //Calculate PE checksum
-        file.seekg(0);
-        uint64_t top = 0xFFFFFFFF;
-        top++;
+    image_dos_header header;
 
-        //"CheckSum" field position in optional PE headers - it's always 64 for PE and PE+
-        static const uint32_t checksum_pos_in_optional_headers = 64;
-        //Calculate real PE headers "CheckSum" field position
-        //Sum is safe here
-        int64_t pe_checksum_pos = header.e_lfanew + sizeof(image_file_header) + sizeof(uint32_t) + checksum_pos_in_optional_headers;
+    //Read DOS header
+    pe_base::read_dos_header(file, header);
 
-        //Calculate checksum for each byte of file
-        std::streamoff filesize = pe_utils::get_file_size(file);
-        for(int64_t i = 0; i < filesize; i += 4)
-        {
-            uint32_t dw = 0;
+    //Calculate PE checksum
+    file.seekg(0);
+    uint64_t top = 0xFFFFFFFF;
+    top++;
 
-            //Read DWORD from file
-            file.read(reinterpret_cast<char*>(&dw), sizeof(dw));
-            //Skip "CheckSum" DWORD
-            if(i == pe_checksum_pos)
-                continue;
+    //"CheckSum" field position in optional PE headers - it's always 64 for PE and PE+
+    static const uint32_t checksum_pos_in_optional_headers = 64;
+    //Calculate real PE headers "CheckSum" field position
+    //Sum is safe here
+    int64_t pe_checksum_pos = header.e_lfanew + sizeof(image_file_header) + sizeof(uint32_t) + checksum_pos_in_optional_headers;
 
-            //Calculate checksum
-            checksum = (checksum & 0xffffffff) + dw + (checksum >> 32);
-            if(checksum > top)
-                checksum = (checksum & 0xffffffff) + (checksum >> 32);
-        }
-
-        //Finish checksum
-        checksum = (checksum & 0xffff) + (checksum >> 16);
-        checksum = (checksum) + (checksum >> 16);
-        checksum = checksum & 0xffff;
-
-        checksum += static_cast<uint32_t>(filesize);
-    }
-    catch(const std::exception&)
+    //Calculate checksum for each byte of file
+    std::streamoff filesize = pe_utils::get_file_size(file);
+    for(int64_t i = 0; i < filesize; i += 4)
     {
-        //If something went wrong, restore istream state
-        file.exceptions(state);
-        file.seekg(old_offset);
-        file.clear();
-        //Rethrow
-        throw;
+        uint32_t dw = 0;
+
+        //Read DWORD from file
+        file.read(reinterpret_cast<char*>(&dw), sizeof(dw));
+        //Skip "CheckSum" DWORD
+        if(i == pe_checksum_pos)
+            continue;
+
+        //Calculate checksum
+        checksum = (checksum & 0xffffffff) + dw + (checksum >> 32);
+        if(checksum > top)
+            checksum = (checksum & 0xffffffff) + (checksum >> 32);
     }
 
-    //Restore istream state
-    file.exceptions(state);
-    file.seekg(old_offset);
-    file.clear();
+    //Finish checksum
+    checksum = (checksum & 0xffff) + (checksum >> 16);
+    checksum = (checksum) + (checksum >> 16);
+    checksum = checksum & 0xffff;
+
+    checksum += static_cast<uint32_t>(filesize);
 
     //Return checksum
     return static_cast<uint32_t>(checksum);    
diff --git a/src/pe_lib/utils.cpp b/src/pe_lib/utils.cpp
index 5ee8117..9a89da8 100644
--- a/src/pe_lib/utils.cpp
+++ b/src/pe_lib/utils.cpp
@@ -22,6 +22,31 @@ std::streamoff pe_utils::get_file_size(std::istream& file)
     return filesize;
 }
 
+//Saves stream state
+pe_utils::istream_state_saver::istream_state_saver(std::istream& file)
+    :file_(file), state_(file.exceptions()), offset_(file.tellg())
+{
+    file_.exceptions(std::ios::goodbit);
+}
+
+//Restores stream state
+pe_utils::istream_state_saver::~istream_state_saver()
+{
+    //Stream which is not good can't be positioned
+    file_.clear();
+    file_.seekg(offset_);
+
+    try
+    {
+        file_.clear();
+        file_.exceptions(state_);
+    }
+    catch(const std::exception&)
+    {
+        //Stream has no buffer, there's nothing to restore
+    }
+}
+
 #ifndef PE_BLISS_WINDOWS
 const u16string pe_utils::to_ucs2(const std::wstring& str)
 {
diff --git a/src/pe_lib/utils.h b/src/pe_lib/utils.h
index 98b1657..3efeaa6 100644
--- a/src/pe_lib/utils.h
+++ b/src/pe_lib/utils.h
@@ -66,6 +66,23 @@ public:
 
     //Returns stream size
     static std::streamoff get_file_size(std::istream& file);
+
+    //Saves position and exception mask of a stream and turns its exceptions off.
+    //Position and exception mask are restored, and stream state is cleared on destruction
+    class istream_state_saver
+    {
+    public:
+        explicit istream_state_saver(std::istream& file);
+        ~istream_state_saver();
+
+    private:
+        std::istream& file_;
+        std::ios_base::iostate state_;
+        std::streamoff offset_;
+
+        istream_state_saver(const istream_state_saver&);
+        istream_state_saver& operator=(const istream_state_saver&);
+    };
     
 #ifndef PE_BLISS_WINDOWS
 public:
-- 
2.43.0


From 04b90c6feaaa7e1ebaeff510658c4d8aca31b34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 27/76] fix: do not load images from streams which failed

---
 src/pe_lib/pe_base.cpp | 20 +++++++++++---------
 src/pe_lib/utils.cpp   |  4 ++++
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index f428437..1a7a5f1 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -745,12 +745,12 @@ const char* pe_base::section_data_from_rva(uint32_t rva, section_data_type datat
 void pe_base::read_dos_header(std::istream& file, image_dos_header& header)
 {
     //Check istream flags
-    if(file.bad() || file.eof())
+    if(file.bad() || file.fail() || file.eof())
         throw pe_exception("PE file stream is bad or closed.", pe_exception::bad_pe_file);
 
     //Read DOS header and check istream
     file.read(reinterpret_cast<char*>(&header), sizeof(image_dos_header));
-    if(file.bad() || file.eof())
+    if(file.bad() || file.fail())
         throw pe_exception("Unable to read IMAGE_DOS_HEADER", pe_exception::bad_dos_header);
 
     //Check DOS header magic
@@ -781,7 +781,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
 
     //Read NT headers
     file.read(get_nt_headers_ptr(), get_sizeof_nt_header() - sizeof(image_data_directory) * image_numberof_directory_entries);
-    if(file.bad() || file.eof())
+    if(file.bad() || file.fail())
         throw pe_exception("Error reading IMAGE_NT_HEADERS", pe_exception::error_reading_image_nt_headers);
 
     //Check PE signature
@@ -796,7 +796,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
     {
         //Read data directory headers, if any
         file.read(get_nt_headers_ptr() + (get_sizeof_nt_header() - sizeof(image_data_directory) * image_numberof_directory_entries), sizeof(image_data_directory) * get_number_of_rvas_and_sizes());
-        if(file.bad() || file.eof())
+        if(file.bad() || file.fail())
             throw pe_exception("Error reading DATA_DIRECTORY headers", pe_exception::error_reading_data_directories);
     }
 
@@ -830,7 +830,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
         rich_overlay_.resize(dos_header_.e_lfanew - sizeof(image_dos_header));
         file.seekg(sizeof(image_dos_header));
         file.read(&rich_overlay_[0], dos_header_.e_lfanew - sizeof(image_dos_header));
-        if(file.bad() || file.eof())
+        if(file.bad() || file.fail())
             throw pe_exception("Error reading 'Rich' & 'DOS stub' overlay", pe_exception::error_reading_overlay);
     }
 
@@ -854,11 +854,13 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
         section s;
         //Read section header
         file.read(reinterpret_cast<char*>(&s.get_raw_header()), sizeof(image_section_header));
-        if(file.bad() || file.eof())
+        if(file.bad() || file.fail())
             throw pe_exception("Error reading section header", pe_exception::error_reading_section_header);
 
         //Save next section header position
         std::streamoff next_sect = file.tellg();
+        if(next_sect < 0)
+            throw pe_exception("Error reading section header", pe_exception::error_reading_section_header);
 
         //Check section virtual and raw sizes
         if(!s.get_size_of_raw_data() && !s.get_virtual_size())
@@ -960,7 +962,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
 
         full_headers_data_.resize(size_of_headers);
         file.read(&full_headers_data_[0], size_of_headers);
-        if(file.bad() || file.eof())
+        if(file.bad() || file.fail())
             throw pe_exception("Error reading file", pe_exception::error_reading_file);
     }
 
@@ -992,7 +994,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
                     data.resize(directory.SizeOfData);
                     file.seekg(directory.PointerToRawData);
                     file.read(&data[0], directory.SizeOfData);
-                    if(file.bad() || file.eof())
+                    if(file.bad() || file.fail())
                         throw pe_exception("Error reading file", pe_exception::error_reading_file);
 
                     debug_data_.insert(std::make_pair(directory.PointerToRawData, data));
@@ -1042,7 +1044,7 @@ pe_type pe_base::get_pe_type(std::istream& file)
 
     //Read NT headers (we're using 32-bit version, because there's no significant differencies between 32 and 64 bit version structures)
     file.read(reinterpret_cast<char*>(&nt_headers), sizeof(image_nt_headers32) - sizeof(image_data_directory) * image_numberof_directory_entries);
-    if(file.bad() || file.eof())
+    if(file.bad() || file.fail())
         throw pe_exception("Error reading IMAGE_NT_HEADERS", pe_exception::error_reading_image_nt_headers);
 
     //Check NT headers signature
diff --git a/src/pe_lib/utils.cpp b/src/pe_lib/utils.cpp
index 9a89da8..8a55bcc 100644
--- a/src/pe_lib/utils.cpp
+++ b/src/pe_lib/utils.cpp
@@ -19,6 +19,10 @@ std::streamoff pe_utils::get_file_size(std::istream& file)
     std::streamoff filesize = file.tellg();
     //Set old istream offset
     file.seekg(old_offset);
+
+    if(file.fail() || old_offset < 0 || filesize < 0)
+        throw pe_exception("Unable to get stream size", pe_exception::stream_is_bad);
+
     return filesize;
 }
 
-- 
2.43.0


From 2f36f4a2a0806491020523e6806b82d7d06304a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 28/76] fix: report read errors when calculating checksum

---
 src/pe_lib/pe_checksum.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pe_lib/pe_checksum.cpp b/src/pe_lib/pe_checksum.cpp
index f6ff06a..8ed3c9c 100644
--- a/src/pe_lib/pe_checksum.cpp
+++ b/src/pe_lib/pe_checksum.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include "pe_checksum.h"
 #include "pe_structures.h"
 #include "pe_base.h"
@@ -39,6 +40,10 @@ uint32_t calculate_checksum(std::istream& file)
 
         //Read DWORD from file
         file.read(reinterpret_cast<char*>(&dw), sizeof(dw));
+        //Last DWORD may be incomplete
+        if(file.bad() || file.gcount() != std::min<std::streamoff>(sizeof(dw), filesize - i))
+            throw pe_exception("Error reading file", pe_exception::error_reading_file);
+
         //Skip "CheckSum" DWORD
         if(i == pe_checksum_pos)
             continue;
-- 
2.43.0


From 076b3fb519347ae3549aa4eb2349a9c5a1e61eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:46 +0000
Subject: [PATCH 29/76] fix: report read errors when calculating entropy

---
 src/pe_lib/entropy.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/entropy.cpp b/src/pe_lib/entropy.cpp
index 12a3223..c9ae12e 100644
--- a/src/pe_lib/entropy.cpp
+++ b/src/pe_lib/entropy.cpp
@@ -18,22 +18,29 @@ double entropy_calculator::calculate_entropy(std::istream& file)
 {
     uint32_t byte_count[256] = {0}; //Byte count for each of 255 bytes
 
-    if(file.bad())
+    if(file.fail())
         throw pe_exception("Stream is bad", pe_exception::stream_is_bad);
 
-    std::streamoff pos = file.tellg();
+    //Istream state will be restored in any case
+    pe_utils::istream_state_saver saver(file);
 
     std::streamoff length = pe_utils::get_file_size(file);
     length -= file.tellg();
+    if(file.fail() || length < 0)
+        throw pe_exception("Stream is bad", pe_exception::stream_is_bad);
 
     if(!length) //Don't calculate entropy for empty buffers
         throw pe_exception("Data length is zero", pe_exception::data_is_empty);
 
     //Count bytes
     for(std::streamoff i = 0; i != length; ++i)
-        ++byte_count[static_cast<unsigned char>(file.get())];
+    {
+        const int byte = file.get();
+        if(file.fail())
+            throw pe_exception("Error reading file", pe_exception::error_reading_file);
 
-    file.seekg(pos);
+        ++byte_count[static_cast<unsigned char>(byte)];
+    }
 
     return calculate_entropy(byte_count, length);
 }
-- 
2.43.0


From 68f827d2f6f1056fec718b04498d541f15922696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 30/76] fix: do not allocate more memory for debug data than
 the file contains

---
 src/pe_lib/pe_base.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 1a7a5f1..a59a8c9 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -990,6 +990,9 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
                     || directory.Type == image_debug_type_coff)
                     && directory.SizeOfData)
                 {
+                    if(static_cast<std::streamoff>(directory.SizeOfData) > filesize)
+                        throw pe_exception("Error reading file", pe_exception::error_reading_file);
+
                     std::string data;
                     data.resize(directory.SizeOfData);
                     file.seekg(directory.PointerToRawData);
-- 
2.43.0


From 69fc816fa2684483286c5569862d8fbc3044cb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 31/76] fix: keep exception mask of output streams when saving

---
 src/pe_lib/pe_rebuilder.cpp | 49 +++++++++++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index fe58e38..c6ca9d4 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -7,6 +7,48 @@ namespace pe_bliss
 {
 using namespace pe_win;
 
+namespace
+{
+//Saves exception mask of a stream and turns its exceptions off
+class ostream_exceptions_saver
+{
+public:
+    explicit ostream_exceptions_saver(std::ostream& out)
+        :out_(out), state_(out.exceptions()), restored_(false)
+    {
+        out_.exceptions(std::ios::goodbit);
+    }
+
+    //Restores exception mask, throws if stream has failed and its owner wants exceptions
+    void restore()
+    {
+        restored_ = true;
+        out_.exceptions(state_);
+    }
+
+    ~ostream_exceptions_saver()
+    {
+        try
+        {
+            if(!restored_)
+                out_.exceptions(state_);
+        }
+        catch(const std::exception&)
+        {
+            //Another exception is being thrown already
+        }
+    }
+
+private:
+    std::ostream& out_;
+    std::ios_base::iostate state_;
+    bool restored_;
+
+    ostream_exceptions_saver(const ostream_exceptions_saver&);
+    ostream_exceptions_saver& operator=(const ostream_exceptions_saver&);
+};
+}
+
 //Rebuilds PE image headers
 //If strip_dos_header is true, DOS headers partially will be used for PE headers
 //If change_size_of_headers == true, SizeOfHeaders will be recalculated automatically
@@ -105,8 +147,8 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
             throw pe_exception("Incorrect bound import directory", pe_exception::incorrect_bound_import_directory);
     }
 
-    //Change ostream state
-    out.exceptions(std::ios::goodbit);
+    //Change ostream state, caller's exception mask is restored in any case
+    ostream_exceptions_saver saver(out);
     out.clear();
 
     //Number of bytes written so far (output stream may be unseekable
@@ -199,5 +241,8 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
 
         written += raw_size;
     }
+
+    //Signal write errors the way the caller has requested
+    saver.restore();
 }
 }
-- 
2.43.0


From 1b6647f935f1ff9e1e305d566a44d24b438516aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 32/76] fix: make image assignment safe for self-assignment and
 failures

---
 src/pe_lib/pe_base.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index a59a8c9..07f14d7 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -74,15 +74,16 @@ pe_base::pe_base(const pe_base& pe)
 
 pe_base& pe_base::operator=(const pe_base& pe)
 {
-    dos_header_ = pe.dos_header_;
-    rich_overlay_ = pe.rich_overlay_;
-    sections_ = pe.sections_;
-    has_overlay_ = pe.has_overlay_;
-    full_headers_data_ = pe.full_headers_data_;
-    debug_data_ = pe.debug_data_;
-    delete props_;
-    props_ = 0;
-    props_ = pe.props_->duplicate().release();
+    //Image remains untouched if copying fails or if it is assigned to itself
+    pe_base copy(pe);
+
+    std::swap(dos_header_, copy.dos_header_);
+    rich_overlay_.swap(copy.rich_overlay_);
+    sections_.swap(copy.sections_);
+    std::swap(has_overlay_, copy.has_overlay_);
+    full_headers_data_.swap(copy.full_headers_data_);
+    debug_data_.swap(copy.debug_data_);
+    std::swap(props_, copy.props_);
 
     return *this;
 }
-- 
2.43.0


From 039aeed65c014cae842abc90183627ac3538cdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 33/76] fix: make resource directory entries safe to assign and
 to replace

---
 src/pe_lib/pe_resources.cpp | 47 ++++++++++++++++++++++++-------------
 src/pe_lib/pe_resources.h   |  6 +++++
 2 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 0454d45..c6be21c 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -68,25 +68,37 @@ resource_directory_entry::resource_directory_entry(const resource_directory_entr
 //Copy assignment operator
 resource_directory_entry& resource_directory_entry::operator=(const resource_directory_entry& other)
 {
-    release();
+    //Entry remains untouched if copying fails or if it is assigned to itself
+    resource_directory_entry copy(other);
+    swap(copy);
 
-    id_ = other.id_;
-    name_ = other.name_;
-    includes_data_ = other.includes_data_;
-    named_ = other.named_;
+    return *this;
+}
 
-    //If other union'ed pointer is not zero
-    if(other.ptr_.data_)
-    {
-        if(other.includes_data())
-            ptr_.data_ = new resource_data_entry(*other.ptr_.data_);
-        else
-            ptr_.dir_ = new resource_directory(*other.ptr_.dir_);
-    }
+//Move constructor
+resource_directory_entry::resource_directory_entry(resource_directory_entry&& other) noexcept
+    :id_(0), includes_data_(false), named_(false)
+{
+    swap(other);
+}
 
+//Move assignment operator
+resource_directory_entry& resource_directory_entry::operator=(resource_directory_entry&& other) noexcept
+{
+    swap(other);
     return *this;
 }
 
+//Swaps contents of two entries
+void resource_directory_entry::swap(resource_directory_entry& other) noexcept
+{
+    std::swap(id_, other.id_);
+    name_.swap(other.name_);
+    std::swap(ptr_, other.ptr_);
+    std::swap(includes_data_, other.includes_data_);
+    std::swap(named_, other.named_);
+}
+
 //Destroys included data
 void resource_directory_entry::release()
 {
@@ -189,16 +201,18 @@ void resource_directory_entry::set_id(uint32_t id)
 //Adds resource_data_entry
 void resource_directory_entry::add_data_entry(const resource_data_entry& entry)
 {
+    resource_data_entry* data = new resource_data_entry(entry);
     release();
-    ptr_.data_ = new resource_data_entry(entry);
+    ptr_.data_ = data;
     includes_data_ = true;
 }
 
 //Adds resource_directory
 void resource_directory_entry::add_resource_directory(const resource_directory& dir)
 {
+    resource_directory* directory = new resource_directory(dir);
     release();
-    ptr_.dir_ = new resource_directory(dir);
+    ptr_.dir_ = directory;
     includes_data_ = false;
 }
 
@@ -269,8 +283,9 @@ resource_directory::entry_list& resource_directory::get_entry_list()
 //Adds resource_directory_entry
 void resource_directory::add_resource_directory_entry(const resource_directory_entry& entry)
 {
+    const bool named = entry.is_named();
     entries_.push_back(entry);
-    if(entry.is_named())
+    if(named)
         ++number_of_named_entries_;
     else
         ++number_of_id_entries_;
diff --git a/src/pe_lib/pe_resources.h b/src/pe_lib/pe_resources.h
index 7035907..cc9988e 100644
--- a/src/pe_lib/pe_resources.h
+++ b/src/pe_lib/pe_resources.h
@@ -48,6 +48,10 @@ public:
     resource_directory_entry(const resource_directory_entry& other);
     //Copy assignment operator
     resource_directory_entry& operator=(const resource_directory_entry& other);
+    //Move constructor
+    resource_directory_entry(resource_directory_entry&& other) noexcept;
+    //Move assignment operator
+    resource_directory_entry& operator=(resource_directory_entry&& other) noexcept;
 
     //Returns entry ID
     uint32_t get_id() const;
@@ -89,6 +93,8 @@ public: //These functions do not change everything inside image, they are used b
 private:
     //Destroys included data
     void release();
+    //Swaps contents of two entries
+    void swap(resource_directory_entry& other) noexcept;
 
 private:
     uint32_t id_;
-- 
2.43.0


From f06585f3b65ea234dbf46cd5e7ee4c781b8e7df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 34/76] fix: keep existing resource when replacing it fails

---
 src/pe_lib/pe_resource_manager.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pe_lib/pe_resource_manager.cpp b/src/pe_lib/pe_resource_manager.cpp
index ca0a335..8eb133f 100644
--- a/src/pe_lib/pe_resource_manager.cpp
+++ b/src/pe_lib/pe_resource_manager.cpp
@@ -187,6 +187,11 @@ void pe_resource_manager::add_resource(const std::string& data, const std::wstri
 //Helper to add/replace resource
 void pe_resource_manager::add_resource(const std::string& data, resource_directory_entry& new_root_entry, const resource_directory::entry_finder& root_finder, resource_directory_entry& new_entry, const resource_directory::entry_finder& finder, uint32_t language, uint32_t codepage, uint32_t timestamp)
 {
+    //Prepare new data entry first: existing resource must not be lost if something fails
+    resource_directory_entry new_dir_data_entry;
+    new_dir_data_entry.add_data_entry(resource_data_entry(data, codepage));
+    new_dir_data_entry.set_id(language);
+
     //Search for resource type
     resource_directory::entry_list* entries = &root_dir_edit_.get_entry_list();
     resource_directory::entry_list::iterator it = std::find_if(entries->begin(), entries->end(), root_finder);
@@ -220,11 +225,7 @@ void pe_resource_manager::add_resource(const std::string& data, resource_directo
         entries->erase(it); //Erase it, if found
 
     //Add new data entry
-    resource_directory_entry new_dir_data_entry;
-    resource_data_entry data_dir(data, codepage);
-    new_dir_data_entry.add_data_entry(data_dir);
-    new_dir_data_entry.set_id(language);
-    entries->push_back(new_dir_data_entry);
+    entries->push_back(std::move(new_dir_data_entry));
 }
 
 //Adds resource. If resource already exists, replaces it
-- 
2.43.0


From c576710533ae079f2acf0ecd6ab3dfdf261ce479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 35/76] fix: check byte length of resource names

---
 src/pe_lib/pe_resources.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index c6be21c..6b75242 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -382,7 +382,7 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
 
             //Check name length
             if(pe.section_data_length_from_rva(res_rva + nameEntry.NameOffset + sizeof(uint16_t), res_rva + nameEntry.NameOffset + sizeof(uint16_t), section_data_virtual, true)
-                < directory_name_length)
+                < static_cast<uint32_t>(directory_name_length) * sizeof(uint16_t))
                 throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
 
 #ifdef PE_BLISS_WINDOWS
-- 
2.43.0


From 2c34cb35f8632b5b927e52a5676d6675a684a6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 36/76] fix: do not leave incomplete resource branches when
 adding fails

---
 src/pe_lib/pe_resource_manager.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_resource_manager.cpp b/src/pe_lib/pe_resource_manager.cpp
index 8eb133f..287fad1 100644
--- a/src/pe_lib/pe_resource_manager.cpp
+++ b/src/pe_lib/pe_resource_manager.cpp
@@ -198,11 +198,18 @@ void pe_resource_manager::add_resource(const std::string& data, resource_directo
     if(it == entries->end())
     {
         //Add resource type directory, if it was not found
+        //It is added when it is complete, so that nothing changes if something fails
         resource_directory dir;
         dir.set_timestamp(timestamp);
-        new_root_entry.add_resource_directory(dir);
+        dir.get_entry_list().push_back(std::move(new_dir_data_entry));
+        new_entry.add_resource_directory(dir);
+
+        resource_directory type_dir;
+        type_dir.set_timestamp(timestamp);
+        type_dir.get_entry_list().push_back(new_entry);
+        new_root_entry.add_resource_directory(type_dir);
         entries->push_back(new_root_entry);
-        it = entries->end() - 1;
+        return;
     }
 
     //Search for resource name/ID directory with "finder"
@@ -213,9 +220,10 @@ void pe_resource_manager::add_resource(const std::string& data, resource_directo
         //Add resource name/ID directory, if it was not found
         resource_directory dir;
         dir.set_timestamp(timestamp);
+        dir.get_entry_list().push_back(std::move(new_dir_data_entry));
         new_entry.add_resource_directory(dir);
         entries->push_back(new_entry);
-        it = entries->end() - 1;
+        return;
     }
 
     //Search for data resource entry by language
-- 
2.43.0


From 895add2fb4d16e46174072e58d02b52059643e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 37/76] fix: keep heights of cursors taller than 127 pixels

---
 src/pe_lib/resource_cursor_icon_reader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/resource_cursor_icon_reader.cpp b/src/pe_lib/resource_cursor_icon_reader.cpp
index c519124..7f73ef7 100644
--- a/src/pe_lib/resource_cursor_icon_reader.cpp
+++ b/src/pe_lib/resource_cursor_icon_reader.cpp
@@ -298,7 +298,7 @@ uint16_t resource_cursor_icon_reader::format_cursor_headers(std::string& cur_dat
         cursordirentry direntry;
         direntry.ColorCount = 0; //OK
         direntry.Width = static_cast<uint8_t>(group->Width);
-        direntry.Height = static_cast<uint8_t>(group->Height)  / 2;
+        direntry.Height = static_cast<uint8_t>(group->Height / 2);
         direntry.Reserved = 0;
 
         //Now read hotspot data from cursor data directory
@@ -441,7 +441,7 @@ bool resource_cursor_icon_reader::check_cursor_presence(const std::string& curso
             cursordirentry direntry;
             direntry.ColorCount = 0; //OK
             direntry.Width = static_cast<uint8_t>(group->Width);
-            direntry.Height = static_cast<uint8_t>(group->Height)  / 2;
+            direntry.Height = static_cast<uint8_t>(group->Height / 2);
             direntry.Reserved = 0;
 
             if(raw_cursor_data.length() < 2 * sizeof(uint16_t))
-- 
2.43.0


From 83063b4c2d41ade4ca9f568cf66dbdf39f7e76c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 38/76] fix: check that all listed cursors are inside cursor
 group data

---
 src/pe_lib/resource_cursor_icon_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_cursor_icon_reader.cpp b/src/pe_lib/resource_cursor_icon_reader.cpp
index 7f73ef7..f5ffc76 100644
--- a/src/pe_lib/resource_cursor_icon_reader.cpp
+++ b/src/pe_lib/resource_cursor_icon_reader.cpp
@@ -420,7 +420,7 @@ bool resource_cursor_icon_reader::check_cursor_presence(const std::string& curso
     const cursor_header* info = reinterpret_cast<const cursor_header*>(cursor_group_resource_data.data());
 
     //Check resource data length
-    if(cursor_group_resource_data.length() < sizeof(cursor_header) + sizeof(cursor_group))
+    if(cursor_group_resource_data.length() < sizeof(cursor_header) + info->Count * sizeof(cursor_group))
         throw pe_exception("Incorrect resource cursor", pe_exception::resource_incorrect_cursor);
 
     //Iterate over all cursors listed in cursor group
-- 
2.43.0


From 31979db23cc403b18ecc69062fc4209c64101e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 39/76] fix: read all images of an icon or cursor group in the
 group's own language

---
 src/pe_lib/resource_cursor_icon_reader.cpp | 86 ++++++----------------
 src/pe_lib/resource_cursor_icon_reader.h   |  2 +-
 2 files changed, 23 insertions(+), 65 deletions(-)

diff --git a/src/pe_lib/resource_cursor_icon_reader.cpp b/src/pe_lib/resource_cursor_icon_reader.cpp
index f5ffc76..60e69f5 100644
--- a/src/pe_lib/resource_cursor_icon_reader.cpp
+++ b/src/pe_lib/resource_cursor_icon_reader.cpp
@@ -84,22 +84,12 @@ const std::string resource_cursor_icon_reader::get_single_icon_by_id(uint32_t id
 //Returns icon data by name and index in language directory (instead of language) (minimum checks of format correctness)
 const std::string resource_cursor_icon_reader::get_icon_by_name(const std::wstring& name, uint32_t index) const
 {
-    std::string ret;
-
-    //Get resource by name and index
-    const std::string data = res_.get_resource_data_by_name(pe_resource_viewer::resource_icon_group, name, index).get_data();
-
-    //Create icon headers
-    uint16_t icon_count = format_icon_headers(ret, data);
-
-    //Append icon data
-    for(uint16_t i = 0; i != icon_count; ++i)
-    {
-        const icon_group* group = reinterpret_cast<const icon_group*>(data.data() + sizeof(ico_header) + i * sizeof(icon_group));
-        ret += res_.get_resource_data_by_id(pe_resource_viewer::resource_icon, group->Number, index).get_data();
-    }
+    //Images of the group have their own language directories, so index must be changed to language
+    pe_resource_viewer::resource_language_list languages(res_.list_resource_languages(pe_resource_viewer::resource_icon_group, name));
+    if(languages.size() <= index)
+        throw pe_exception("Resource data entry not found", pe_exception::resource_data_entry_not_found);
 
-    return ret;
+    return get_icon_by_name(languages.at(index), name);
 }
 
 //Returns icon data by name and language (minimum checks of format correctness)
@@ -147,22 +137,12 @@ const std::string resource_cursor_icon_reader::get_icon_by_id_lang(uint32_t lang
 //Returns icon data by ID and index in language directory (instead of language) (minimum checks of format correctness)
 const std::string resource_cursor_icon_reader::get_icon_by_id(uint32_t id, uint32_t index) const
 {
-    std::string ret;
-
-    //Get resource by id and index
-    const std::string data = res_.get_resource_data_by_id(pe_resource_viewer::resource_icon_group, id, index).get_data();
-
-    //Create icon headers
-    uint16_t icon_count = format_icon_headers(ret, data);
-
-    //Append icon data
-    for(uint16_t i = 0; i != icon_count; ++i)
-    {
-        const icon_group* group = reinterpret_cast<const icon_group*>(data.data() + sizeof(ico_header) + i * sizeof(icon_group));
-        ret += res_.get_resource_data_by_id(pe_resource_viewer::resource_icon, group->Number, index).get_data();
-    }
+    //Images of the group have their own language directories, so index must be changed to language
+    pe_resource_viewer::resource_language_list languages(res_.list_resource_languages(pe_resource_viewer::resource_icon_group, id));
+    if(languages.size() <= index)
+        throw pe_exception("Resource data entry not found", pe_exception::resource_data_entry_not_found);
 
-    return ret;
+    return get_icon_by_id_lang(languages.at(index), id);
 }
 
 //Checks for icon presence inside icon group, fills icon headers if found
@@ -271,7 +251,7 @@ const std::string resource_cursor_icon_reader::get_single_cursor_by_id(uint32_t
 
 //Helper function of creating cursor headers
 //Returns cursor count
-uint16_t resource_cursor_icon_reader::format_cursor_headers(std::string& cur_data, const std::string& resource_data, uint32_t language, uint32_t index) const
+uint16_t resource_cursor_icon_reader::format_cursor_headers(std::string& cur_data, const std::string& resource_data, uint32_t language) const
 {
     //Check resource data length
     if(resource_data.length() < sizeof(cursor_header))
@@ -302,9 +282,7 @@ uint16_t resource_cursor_icon_reader::format_cursor_headers(std::string& cur_dat
         direntry.Reserved = 0;
 
         //Now read hotspot data from cursor data directory
-        const std::string cursor = index == 0xFFFFFFFF
-            ? res_.get_resource_data_by_id(language, pe_resource_viewer::resource_cursor, group->Number).get_data()
-            : res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor, group->Number, index).get_data();
+        const std::string cursor = res_.get_resource_data_by_id(language, pe_resource_viewer::resource_cursor, group->Number).get_data();
         if(cursor.length() < 2 * sizeof(uint16_t))
             throw pe_exception("Incorrect resource cursor", pe_exception::resource_incorrect_cursor);
 
@@ -350,22 +328,12 @@ const std::string resource_cursor_icon_reader::get_cursor_by_name(uint32_t langu
 //Returns cursor data by name and index in language directory (instead of language) (minimum checks of format correctness)
 const std::string resource_cursor_icon_reader::get_cursor_by_name(const std::wstring& name, uint32_t index) const
 {
-    std::string ret;
-
-    //Get resource by name and index
-    const std::string resource_data = res_.get_resource_data_by_name(pe_resource_viewer::resource_cursor_group, name, index).get_data();
-
-    //Create cursor headers
-    uint16_t cursor_count = format_cursor_headers(ret, resource_data, 0, index);
-
-    //Add cursor data
-    for(uint16_t i = 0; i != cursor_count; ++i)
-    {
-        const cursor_group* group = reinterpret_cast<const cursor_group*>(resource_data.data() + sizeof(cursor_header) + i * sizeof(cursor_group));
-        ret += res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor, group->Number, index).get_data().substr(2 * sizeof(uint16_t));
-    }
+    //Images of the group have their own language directories, so index must be changed to language
+    pe_resource_viewer::resource_language_list languages(res_.list_resource_languages(pe_resource_viewer::resource_cursor_group, name));
+    if(languages.size() <= index)
+        throw pe_exception("Resource data entry not found", pe_exception::resource_data_entry_not_found);
 
-    return ret;
+    return get_cursor_by_name(languages.at(index), name);
 }
 
 //Returns cursor data by ID and language (minimum checks of format correctness)
@@ -392,22 +360,12 @@ const std::string resource_cursor_icon_reader::get_cursor_by_id_lang(uint32_t la
 //Returns cursor data by ID and index in language directory (instead of language) (minimum checks of format correctness)
 const std::string resource_cursor_icon_reader::get_cursor_by_id(uint32_t id, uint32_t index) const
 {
-    std::string ret;
-
-    //Get resource by ID and index
-    const std::string resource_data = res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor_group, id, index).get_data();
-
-    //Create cursor headers
-    uint16_t cursor_count = format_cursor_headers(ret, resource_data, 0, index);
-
-    //Add cursor data
-    for(uint16_t i = 0; i != cursor_count; ++i)
-    {
-        const cursor_group* group = reinterpret_cast<const cursor_group*>(resource_data.data() + sizeof(cursor_header) + i * sizeof(cursor_group));
-        ret += res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor, group->Number, index).get_data().substr(2 * sizeof(uint16_t));
-    }
+    //Images of the group have their own language directories, so index must be changed to language
+    pe_resource_viewer::resource_language_list languages(res_.list_resource_languages(pe_resource_viewer::resource_cursor_group, id));
+    if(languages.size() <= index)
+        throw pe_exception("Resource data entry not found", pe_exception::resource_data_entry_not_found);
 
-    return ret;
+    return get_cursor_by_id_lang(languages.at(index), id);
 }
 
 //Checks for cursor presence inside cursor group, fills cursor headers if found
diff --git a/src/pe_lib/resource_cursor_icon_reader.h b/src/pe_lib/resource_cursor_icon_reader.h
index 7bd5ce4..13c208e 100644
--- a/src/pe_lib/resource_cursor_icon_reader.h
+++ b/src/pe_lib/resource_cursor_icon_reader.h
@@ -48,7 +48,7 @@ private:
     
     //Helper function of creating cursor headers from CURSOR_GROUP resource data
     //Returns cursor count
-    uint16_t format_cursor_headers(std::string& cur_data, const std::string& resource_data, uint32_t language, uint32_t index = 0xFFFFFFFF) const;
+    uint16_t format_cursor_headers(std::string& cur_data, const std::string& resource_data, uint32_t language) const;
 
     //Looks up icon group by icon id and returns full icon headers if found
     const std::string lookup_icon_group_data_by_icon(uint32_t icon_id, uint32_t language) const;
-- 
2.43.0


From 22075aa8aca775d2b1f939fe682fd498c3603721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 40/76] fix: check byte length of strings in string tables

---
 src/pe_lib/resource_string_table_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_string_table_reader.cpp b/src/pe_lib/resource_string_table_reader.cpp
index 5ebbe61..da95df5 100644
--- a/src/pe_lib/resource_string_table_reader.cpp
+++ b/src/pe_lib/resource_string_table_reader.cpp
@@ -38,7 +38,7 @@ const resource_string_list resource_string_table_reader::parse_string_list(uint3
         passed_bytes += sizeof(uint16_t); //WORD containing string length
 
         //Check resource data length again
-        if(resource_data.length() < string_length + passed_bytes)
+        if(resource_data.length() < string_length * sizeof(uint16_t) + passed_bytes)
             throw pe_exception("Incorrect resource string table", pe_exception::resource_incorrect_string_table);
 
         if(string_length)
-- 
2.43.0


From 01a88e2ea1bac375b5d72c2971fee7d2df8ff051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 41/76] fix: do not refuse small message tables

---
 src/pe_lib/resource_message_list_reader.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/resource_message_list_reader.cpp b/src/pe_lib/resource_message_list_reader.cpp
index a94f297..d104226 100644
--- a/src/pe_lib/resource_message_list_reader.cpp
+++ b/src/pe_lib/resource_message_list_reader.cpp
@@ -15,15 +15,16 @@ const resource_message_list resource_message_list_reader::parse_message_list(con
     resource_message_list ret;
 
     //Check resource data length
-    if(resource_data.length() < sizeof(message_resource_data))
+    static const uint32_t size_of_message_header = sizeof(message_resource_data) - sizeof(message_resource_block); //Size of data before blocks
+    if(resource_data.length() < size_of_message_header)
         throw pe_exception("Incorrect resource message table", pe_exception::resource_incorrect_message_table);
 
     const message_resource_data* message_data = reinterpret_cast<const message_resource_data*>(resource_data.data());
 
     //Check resource data length more carefully and some possible overflows
     if(message_data->NumberOfBlocks >= pe_utils::max_dword / sizeof(message_resource_block)
-        || !pe_utils::is_sum_safe(message_data->NumberOfBlocks * sizeof(message_resource_block), sizeof(message_resource_data))
-        || resource_data.length() < message_data->NumberOfBlocks * sizeof(message_resource_block) + sizeof(message_resource_data))
+        || !pe_utils::is_sum_safe(message_data->NumberOfBlocks * sizeof(message_resource_block), size_of_message_header)
+        || resource_data.length() < message_data->NumberOfBlocks * sizeof(message_resource_block) + size_of_message_header)
         throw pe_exception("Incorrect resource message table", pe_exception::resource_incorrect_message_table);
 
     //Iterate over all message resource blocks
-- 
2.43.0


From 5de69490476ae6c4fec9c0cb034c78a8e03e5f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 42/76] fix: check byte length of version info strings

---
 src/pe_lib/resource_version_info_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_version_info_reader.cpp b/src/pe_lib/resource_version_info_reader.cpp
index 404914e..6ad28ed 100644
--- a/src/pe_lib/resource_version_info_reader.cpp
+++ b/src/pe_lib/resource_version_info_reader.cpp
@@ -165,7 +165,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                         //Get value position
                         uint32_t value_pos = get_version_block_value_pos(string_pos, reinterpret_cast<const unicode16_t*>(string_block->Key));
                         //Check it
-                        if(resource_data.length() < value_pos + string_block->ValueLength)
+                        if(resource_data.length() < value_pos + string_block->ValueLength * sizeof(uint16_t))
                             throw pe_exception("Incorrect resource version info", pe_exception::resource_incorrect_version_info);
 
                         //Get UNICODE string value
-- 
2.43.0


From b2725806f62d1d3381ee7306b8a1ca6933e5a118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 43/76] fix: do not read version info translations past their
 data

---
 src/pe_lib/resource_version_info_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_version_info_reader.cpp b/src/pe_lib/resource_version_info_reader.cpp
index 6ad28ed..3f0933a 100644
--- a/src/pe_lib/resource_version_info_reader.cpp
+++ b/src/pe_lib/resource_version_info_reader.cpp
@@ -225,7 +225,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                         throw_incorrect_version_info();
 
                     //Get list of translations: pairs of LANGUAGE_ID - CODEPAGE_ID
-                    for(uint32_t i = 0; i < var_table->ValueLength; i += sizeof(uint16_t) * 2)
+                    for(uint32_t i = 0; i + sizeof(uint16_t) * 2 <= var_table->ValueLength; i += sizeof(uint16_t) * 2)
                     {
                         //Pair of WORDs
                         uint16_t lang_id = *reinterpret_cast<const uint16_t*>(resource_data.data() + value_pos + i);
-- 
2.43.0


From 412bd92e9aff3ce6312cbe305c5effba3ce70951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 44/76] fix: do not write version info which lengths do not fit

---
 src/pe_lib/resource_version_info_writer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe_lib/resource_version_info_writer.cpp b/src/pe_lib/resource_version_info_writer.cpp
index 5456bf8..f062f97 100644
--- a/src/pe_lib/resource_version_info_writer.cpp
+++ b/src/pe_lib/resource_version_info_writer.cpp
@@ -62,6 +62,10 @@ void resource_version_info_writer::set_version_info(const file_version_info& fil
         total_version_info_length += static_cast<uint32_t>(translations.size() * sizeof(uint16_t) * 2);
     }
 
+    //Block lengths are stored in WORDs
+    if(total_version_info_length > pe_utils::max_word)
+        throw pe_exception("Version info is too large", pe_exception::resource_incorrect_version_info);
+
     //Resize version data buffer
     version_data.resize(total_version_info_length);
 
-- 
2.43.0


From 060fc67f4bf3a31a38de9758d2ab53dfd9e61c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:12 +0000
Subject: [PATCH 45/76] fix: never give IDs of existing icons and cursors to
 new ones

---
 src/pe_lib/resource_cursor_icon_writer.cpp | 68 +++++++++-------------
 1 file changed, 27 insertions(+), 41 deletions(-)

diff --git a/src/pe_lib/resource_cursor_icon_writer.cpp b/src/pe_lib/resource_cursor_icon_writer.cpp
index faae7bd..927df67 100755
--- a/src/pe_lib/resource_cursor_icon_writer.cpp
+++ b/src/pe_lib/resource_cursor_icon_writer.cpp
@@ -108,59 +108,45 @@ const std::vector<uint16_t> resource_cursor_icon_writer::get_icon_or_cursor_free
     //Search for available icon/cursor IDs
     std::vector<uint16_t> icon_cursor_id_list;
 
+    std::vector<uint32_t> id_list;
+
     try
     {
         //If any icon exists
         //List icon IDs
-        std::vector<uint32_t> id_list(res_.list_resource_ids(type));
+        id_list = res_.list_resource_ids(type);
         std::sort(id_list.begin(), id_list.end());
+    }
+    catch(const pe_exception&) //Entry not found
+    {
+    }
 
-        //If we are placing icon on free spaces
-        //I.e., icon IDs 1, 3, 4, 7, 8 already exist
-        //We'll place five icons on IDs 2, 5, 6, 9, 10
+    uint32_t next_id = 1;
+
+    //If we are placing icon on free spaces
+    //I.e., icon IDs 1, 3, 4, 7, 8 already exist
+    //We'll place five icons on IDs 2, 5, 6, 9, 10
+    //Otherwise we just search for maximum existing ID
+    for(std::vector<uint32_t>::const_iterator it = id_list.begin(); it != id_list.end() && *it <= pe_utils::max_word; ++it)
+    {
         if(mode != icon_place_after_max_icon_id)
         {
-            if(!id_list.empty())
-            {
-                //Determine and list free icon IDs
-                for(std::vector<uint32_t>::const_iterator it = id_list.begin(); it != id_list.end(); ++it)
-                {
-                    if(it == id_list.begin())
-                    {
-                        if(*it > 1)
-                        {
-                            for(uint16_t i = 1; i != *it; ++i)
-                            {
-                                icon_cursor_id_list.push_back(i);
-                                if(icon_cursor_id_list.size() == count)
-                                    break;
-                            }
-                        }
-                    }
-                    else if(*(it - 1) - *it > 1)
-                    {
-                        for(uint16_t i = static_cast<uint16_t>(*(it - 1) + 1); i != static_cast<uint16_t>(*it); ++i)
-                        {
-                            icon_cursor_id_list.push_back(i);
-                            if(icon_cursor_id_list.size() == count)
-                                break;
-                        }
-                    }
-
-                    if(icon_cursor_id_list.size() == count)
-                        break;
-                }
-            }
+            //List free icon IDs
+            for(; next_id < *it && icon_cursor_id_list.size() != count; ++next_id)
+                icon_cursor_id_list.push_back(static_cast<uint16_t>(next_id));
         }
 
-        uint32_t max_id = id_list.empty() ? 0 : *std::max_element(id_list.begin(), id_list.end());
-        for(uint32_t i = static_cast<uint32_t>(icon_cursor_id_list.size()); i != count; ++i)
-            icon_cursor_id_list.push_back(static_cast<uint16_t>(++max_id));
+        if(*it >= next_id)
+            next_id = *it + 1;
     }
-    catch(const pe_exception&) //Entry not found
+
+    //IDs in icon/cursor groups are 16-bit
+    for(; icon_cursor_id_list.size() != count; ++next_id)
     {
-        for(uint16_t i = 1; i != count + 1; ++i)
-            icon_cursor_id_list.push_back(i);
+        if(next_id > pe_utils::max_word)
+            throw pe_exception("No free icon or cursor IDs left", type == pe_resource_viewer::resource_icon ? pe_exception::resource_incorrect_icon : pe_exception::resource_incorrect_cursor);
+
+        icon_cursor_id_list.push_back(static_cast<uint16_t>(next_id));
     }
 
     return icon_cursor_id_list;
-- 
2.43.0


From 6a67a59d9a547eb70114c89c663c3e49a48e384e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:12 +0000
Subject: [PATCH 46/76] fix: do not overflow count of icons and cursors in
 existing groups

---
 src/pe_lib/resource_cursor_icon_writer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pe_lib/resource_cursor_icon_writer.cpp b/src/pe_lib/resource_cursor_icon_writer.cpp
index 927df67..838d908 100755
--- a/src/pe_lib/resource_cursor_icon_writer.cpp
+++ b/src/pe_lib/resource_cursor_icon_writer.cpp
@@ -57,6 +57,10 @@ void resource_cursor_icon_writer::add_icon(const std::string& icon_file, const r
         if(icon_group_data.length() < sizeof(ico_header) + info->Count * sizeof(icon_group))
             throw pe_exception("Incorrect resource icon", pe_exception::resource_incorrect_icon);
 
+        //Check icon count
+        if(info->Count + icon_header->Count > pe_utils::max_word)
+            throw pe_exception("Too many icons in group", pe_exception::resource_incorrect_icon);
+
         icon_group_data.resize(sizeof(ico_header) + (info->Count + icon_header->Count) * sizeof(icon_group));
         info = reinterpret_cast<ico_header*>(&icon_group_data[0]); //In case if memory was reallocated
     }
@@ -199,6 +203,10 @@ void resource_cursor_icon_writer::add_cursor(const std::string& cursor_file, con
         if(cursor_group_data.length() < sizeof(cursor_header) + info->Count * sizeof(cursor_group))
             throw pe_exception("Incorrect resource cursor", pe_exception::resource_incorrect_cursor);
 
+        //Check cursor count
+        if(info->Count + cur_header->Count > pe_utils::max_word)
+            throw pe_exception("Too many cursors in group", pe_exception::resource_incorrect_cursor);
+
         cursor_group_data.resize(sizeof(cursor_header) + (info->Count + cur_header->Count) * sizeof(cursor_group));
         info = reinterpret_cast<cursor_header*>(&cursor_group_data[0]); //In case if memory was reallocated
     }
-- 
2.43.0


From 490e769df437b0a646e6479a1da0c69f6ffb985e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:33 +0000
Subject: [PATCH 47/76] fix: remove images which were added if adding of icon
 or cursor group fails

---
 src/pe_lib/resource_cursor_icon_writer.cpp | 37 ++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/pe_lib/resource_cursor_icon_writer.cpp b/src/pe_lib/resource_cursor_icon_writer.cpp
index 838d908..90069b8 100755
--- a/src/pe_lib/resource_cursor_icon_writer.cpp
+++ b/src/pe_lib/resource_cursor_icon_writer.cpp
@@ -6,6 +6,35 @@ namespace pe_bliss
 {
 using namespace pe_win;
 
+namespace
+{
+//Removes icons or cursors which were already added to resources, if something fails before their group is added
+class added_images_guard
+{
+public:
+    added_images_guard(pe_resource_manager& res, pe_resource_viewer::resource_type type, const std::vector<uint16_t>& ids, uint32_t language)
+        :added(0), res_(res), type_(type), ids_(ids), language_(language)
+    {}
+
+    ~added_images_guard()
+    {
+        for(uint32_t i = 0; i != added; ++i)
+            res_.remove_resource(type_, ids_[i], language_);
+    }
+
+    uint32_t added; //Count of images to remove
+
+private:
+    added_images_guard(const added_images_guard&);
+    added_images_guard& operator=(const added_images_guard&);
+
+    pe_resource_manager& res_;
+    pe_resource_viewer::resource_type type_;
+    const std::vector<uint16_t>& ids_;
+    uint32_t language_;
+};
+}
+
 resource_cursor_icon_writer::resource_cursor_icon_writer(pe_resource_manager& res)
     :res_(res)
 {}
@@ -72,6 +101,7 @@ void resource_cursor_icon_writer::add_icon(const std::string& icon_file, const r
 
     //Search for available icon IDs
     std::vector<uint16_t> icon_id_list(get_icon_or_cursor_free_id_list(pe_resource_viewer::resource_icon, mode, icon_header->Count));
+    added_images_guard guard(res_, pe_resource_viewer::resource_icon, icon_id_list, language);
 
     //Enumerate all icons in file
     for(uint16_t i = 0; i != icon_header->Count; ++i)
@@ -95,6 +125,7 @@ void resource_cursor_icon_writer::add_icon(const std::string& icon_file, const r
         resource_directory_entry new_entry;
         new_entry.set_id(group.Number);
         res_.add_resource(icon_file.substr(icon_entry->ImageOffset, icon_entry->SizeInBytes), pe_resource_viewer::resource_icon, new_entry, resource_directory::entry_finder(group.Number), language, codepage, timestamp);
+        ++guard.added;
     }
 
     if(info)
@@ -104,6 +135,8 @@ void resource_cursor_icon_writer::add_icon(const std::string& icon_file, const r
         //Add or replace icon group data entry
         res_.add_resource(icon_group_data, pe_resource_viewer::resource_icon_group, new_icon_group_entry, finder, language, codepage, timestamp);
     }
+
+    guard.added = 0; //Everything is added
 }
 
 //Returns free icon or cursor ID list depending on icon_place_mode
@@ -218,6 +251,7 @@ void resource_cursor_icon_writer::add_cursor(const std::string& cursor_file, con
 
     //Search for available cursor IDs
     std::vector<uint16_t> cursor_id_list(get_icon_or_cursor_free_id_list(pe_resource_viewer::resource_cursor, mode, cur_header->Count));
+    added_images_guard guard(res_, pe_resource_viewer::resource_cursor, cursor_id_list, language);
 
     //Enumerate all cursors in file
     for(uint16_t i = 0; i != cur_header->Count; ++i)
@@ -245,6 +279,7 @@ void resource_cursor_icon_writer::add_cursor(const std::string& cursor_file, con
         cur_data.append(cursor_file.substr(cursor_entry->ImageOffset, cursor_entry->SizeInBytes));
 
         res_.add_resource(cur_data, pe_resource_viewer::resource_cursor, new_entry, resource_directory::entry_finder(group.Number), language, codepage, timestamp);
+        ++guard.added;
     }
 
     if(info)
@@ -254,6 +289,8 @@ void resource_cursor_icon_writer::add_cursor(const std::string& cursor_file, con
         //Add or replace cursor group data entry
         res_.add_resource(cursor_group_data, pe_resource_viewer::resource_cursor_group, new_cursor_group_entry, finder, language, codepage, timestamp);
     }
+
+    guard.added = 0; //Everything is added
 }
 
 //Adds icon(s) from icon file data
-- 
2.43.0


From 124edfe49f4fb96bb764c818a1dcadc810e2b616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 48/76] fix: limit nesting level of resource directories

---
 src/pe_lib/pe_resources.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 6b75242..806cf80 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -335,11 +335,18 @@ void resource_directory::get_minor_version(uint16_t minor_version)
     minor_version_ = minor_version;
 }
 
+//Maximum nesting level of resource directories (Windows uses 3 levels)
+static const uint32_t max_resource_directory_depth = 64;
+
 //Processes resource directory
-const resource_directory process_resource_directory(const pe_base& pe, uint32_t res_rva, uint32_t offset_to_directory, std::set<uint32_t>& processed)
+const resource_directory process_resource_directory(const pe_base& pe, uint32_t res_rva, uint32_t offset_to_directory, std::set<uint32_t>& processed, uint32_t depth)
 {
     resource_directory ret;
     
+    //Check nesting level: directories are processed (and copied, and destroyed) recursively
+    if(depth > max_resource_directory_depth)
+        throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
+
     //Check for resource loops
     if(!processed.insert(offset_to_directory).second)
         throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
@@ -407,7 +414,7 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
         const auto& dirEntry = dir_entry.DirItem.DirEntry;
         if(dirEntry.DataIsDirectory)
         {
-            entry.add_resource_directory(process_resource_directory(pe, res_rva, dirEntry.OffsetToDirectory, processed));
+            entry.add_resource_directory(process_resource_directory(pe, res_rva, dirEntry.OffsetToDirectory, processed, depth + 1));
         }
         else
         {
@@ -661,7 +668,7 @@ const resource_directory get_resources(const pe_base& pe)
     std::set<uint32_t> processed;
     
     //Process all directories (recursion)
-    ret = process_resource_directory(pe, res_rva, 0, processed);
+    ret = process_resource_directory(pe, res_rva, 0, processed, 1);
 
     return ret;
 }
-- 
2.43.0


From f61725bdc78f8e4700361ef633cd9f228d9ca04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 49/76] fix: check that resource directory can be stored before
 changing section data

---
 src/pe_lib/pe_resources.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 806cf80..c4cc154 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -443,13 +443,30 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
 //Helper function to calculate needed space for resource data
 void calculate_resource_data_space(const resource_directory& root, uint32_t aligned_offset_from_section_start, uint32_t& needed_size_for_structures, uint32_t& needed_size_for_strings)
 {
+    //Entry counts are stored in WORDs
+    if(root.get_entry_list().size() > pe_utils::max_word)
+        throw pe_exception("Too many resource directory entries", pe_exception::resource_directory_entry_error);
+
     needed_size_for_structures += sizeof(image_resource_directory);
     for(resource_directory::entry_list::const_iterator it = root.get_entry_list().begin(); it != root.get_entry_list().end(); ++it)
     {
         needed_size_for_structures += sizeof(image_resource_directory_entry);
 
         if((*it).is_named())
+        {
+            //Name length is stored in WORD
+            if((*it).get_name().length() > pe_utils::max_word)
+                throw pe_exception("Resource name is too long", pe_exception::resource_directory_entry_error);
+
+#ifndef PE_BLISS_WINDOWS
+            pe_utils::to_ucs2((*it).get_name()); //Throws an exception if name can't be stored
+#endif
             needed_size_for_strings += static_cast<uint32_t>(((*it).get_name().length() + 1) * 2 /* unicode */ + sizeof(uint16_t) /* for string length */);
+        }
+        else if((*it).get_id() & 0x80000000) //The highest bit is a flag of named entry
+        {
+            throw pe_exception("Incorrect resource ID", pe_exception::resource_directory_entry_error);
+        }
 
         if(!(*it).includes_data())
             calculate_resource_data_space((*it).get_resource_directory(), aligned_offset_from_section_start, needed_size_for_structures, needed_size_for_strings);
-- 
2.43.0


From 5f8e01c1cec9542a656f94d243c417315ce824a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:50 +0000
Subject: [PATCH 50/76] fix: checksum reads the DOS header from the beginning
 of the file

calculate_checksum read the DOS header at the current stream position but
everything else from the beginning of the file, so it refused (or misplaced
the CheckSum field) when the stream was not at position 0.
---
 src/pe_lib/pe_checksum.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_checksum.cpp b/src/pe_lib/pe_checksum.cpp
index 8ed3c9c..9f59527 100644
--- a/src/pe_lib/pe_checksum.cpp
+++ b/src/pe_lib/pe_checksum.cpp
@@ -18,7 +18,8 @@ uint32_t calculate_checksum(std::istream& file)
 
     image_dos_header header;
 
-    //Read DOS header
+    //Read DOS header, checksum always covers the whole file
+    file.seekg(0);
     pe_base::read_dos_header(file, header);
 
     //Calculate PE checksum
-- 
2.43.0


From 91cd55c7183f79b8eca91f3c6d7cc0aeb2149d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 51/76] fix: calculate image size from sections when adding a
 section

The size of the new section was added to the previous value, which is
zero for a newly created image, so the image size did not cover the
headers (and kept any wrong value the file had).
---
 src/pe_lib/pe_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 07f14d7..bc8f527 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -477,7 +477,7 @@ section& pe_base::add_section(section s, bool autoupdate /*= true*/)
     //Set number of sections in PE header
     set_number_of_sections(static_cast<uint16_t>(sections_.size()));
     //Recalculate virtual size of image
-    set_size_of_image(get_size_of_image() + s.get_aligned_virtual_size(get_section_alignment()));
+    update_image_size();
     //Return last section
     return sections_.back();
 }
-- 
2.43.0


From 12ae2aa278ca8ff7cd6c0e85e8d8145aa247b34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 52/76] fix: read values which end exactly at the end of
 headers

---
 src/pe_lib/pe_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_base.h b/src/pe_lib/pe_base.h
index 5642147..b340824 100644
--- a/src/pe_lib/pe_base.h
+++ b/src/pe_lib/pe_base.h
@@ -388,7 +388,7 @@ public: //IMAGE SECTIONS
     T section_data_from_rva(uint32_t rva, section_data_type datatype = section_data_raw, bool include_headers = false) const
     {
         //if RVA is inside of headers and we're searching them too...
-        if(include_headers && pe_utils::is_sum_safe(rva, sizeof(T)) && (rva + sizeof(T) < full_headers_data_.length()))
+        if(include_headers && pe_utils::is_sum_safe(rva, sizeof(T)) && (rva + sizeof(T) <= full_headers_data_.length()))
             return *reinterpret_cast<const T*>(&full_headers_data_[rva]);
 
         const section& s = section_from_rva(rva);
-- 
2.43.0


From e8ab881f431465f57d530d8dd2ad34d0ecfa87c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 53/76] fix: detect overlay of images which last section has no
 raw data

PointerToRawData of a section without raw data is meaningless (usually
zero), so such images were always reported to have an overlay.
---
 src/pe_lib/pe_base.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index bc8f527..964cd09 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -847,7 +847,8 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
             throw pe_exception("Cannot reach section headers", pe_exception::image_section_headers_not_found);
     }
 
-    uint32_t last_raw_size = 0;
+    //End of data of headers and sections in file
+    uint32_t raw_data_end = get_size_of_headers();
 
     //Read all sections
     for(int i = 0; i < get_number_of_sections(); i++)
@@ -877,7 +878,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
             //If section has raw data
 
             //If section raw data size is greater than virtual, fix it
-            last_raw_size = s.get_size_of_raw_data();
+            raw_data_end = std::max(raw_data_end, s.get_pointer_to_raw_data() + s.get_size_of_raw_data());
             if(pe_utils::align_up(s.get_size_of_raw_data(), get_file_alignment()) > pe_utils::align_up(s.get_virtual_size(), get_section_alignment()))
                 s.set_size_of_raw_data(s.get_virtual_size());
 
@@ -942,7 +943,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
     }
 
     //Check if image has overlay in the end of file
-    has_overlay_ = !sections_.empty() && filesize > static_cast<std::streamoff>(sections_.back().get_pointer_to_raw_data() + last_raw_size);
+    has_overlay_ = !sections_.empty() && filesize > static_cast<std::streamoff>(raw_data_end);
 
     {
         //Additionally, read data from the beginning of istream to size of headers
-- 
2.43.0


From 960428230b2656511df28221bd60c212865afc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:55 +0000
Subject: [PATCH 54/76] fix: update image size when growing the last section

Growing raw data of the last section could enlarge its virtual size
without updating the image size until the image was saved.
---
 src/pe_lib/pe_base.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 964cd09..61503ef 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -1563,6 +1563,10 @@ void pe_base::recalculate_section_sizes(section& s, bool auto_strip)
     //Can occur only for last section
     if(pe_utils::align_up(s.get_virtual_size(), get_section_alignment()) < pe_utils::align_up(s.get_size_of_raw_data(), get_file_alignment()))
         set_section_virtual_size(s, pe_utils::align_up(s.get_size_of_raw_data(), get_section_alignment())); //Recalculate section virtual size
+
+    //Virtual size of the last section may have been changed
+    if(!sections_.empty() && &s == &sections_.back())
+        update_image_size();
 }
 
 //Returns data from the beginning of image
-- 
2.43.0


From fedf313df55b6b98077b6844a6ef165aea30f99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 55/76] fix: load data of sections with zero virtual size

Zero VirtualSize means that the section occupies its raw size in memory,
but raw data of such sections was dropped silently.
---
 src/pe_lib/pe_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 61503ef..fd73781 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -879,7 +879,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
 
             //If section raw data size is greater than virtual, fix it
             raw_data_end = std::max(raw_data_end, s.get_pointer_to_raw_data() + s.get_size_of_raw_data());
-            if(pe_utils::align_up(s.get_size_of_raw_data(), get_file_alignment()) > pe_utils::align_up(s.get_virtual_size(), get_section_alignment()))
+            if(pe_utils::align_up(s.get_size_of_raw_data(), get_file_alignment()) > s.get_aligned_virtual_size(get_section_alignment()))
                 s.set_size_of_raw_data(s.get_virtual_size());
 
             //Check virtual and raw section sizes and addresses
-- 
2.43.0


From 318d6b0bdda85b95f7bed216aab0355864c0a3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 56/76] fix: keep virtual size of the last section when
 realigning it

Zero VirtualSize stands for the raw size, which is stripped there.
---
 src/pe_lib/pe_base.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index fd73781..b3e0a74 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -198,6 +198,10 @@ void pe_base::realign_section(uint32_t index)
 
     if(it == sections_.end() - 1) //If we're realigning the last section
     {
+        //Zero virtual size means raw size, it must not become less
+        if(!s.get_virtual_size())
+            s.set_virtual_size(s.get_size_of_raw_data());
+
         //We can strip ending null bytes
         s.set_size_of_raw_data(static_cast<uint32_t>(s.get_raw_data().length() - strip));
         s.get_raw_data().resize(s.get_raw_data().length() - strip, 0);
-- 
2.43.0


From ceccfc05fade2503a85d38da978a319d592365d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:46 +0000
Subject: [PATCH 57/76] fix: calculate size of resource data in the order it is
 written

---
 src/pe_lib/pe_resources.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index c4cc154..4b62627 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -500,7 +500,21 @@ public:
     bool operator()(const resource_directory_entry& entry1, const resource_directory_entry& entry2) const;
 };
 
+//Helper function to sort all resource directories
+void sort_resource_directories(resource_directory& root)
+{
+    resource_directory::entry_list& entries = root.get_entry_list();
+    std::sort(entries.begin(), entries.end(), entry_sorter());
+
+    for(resource_directory::entry_list::iterator it = entries.begin(); it != entries.end(); ++it)
+    {
+        if(!(*it).includes_data())
+            sort_resource_directories((*it).get_resource_directory());
+    }
+}
+
 //Helper function to rebuild resource directory
+//Directories must be sorted
 void rebuild_resource_directory(pe_base& pe, section& resource_section, resource_directory& root, uint32_t& current_structures_pos, uint32_t& current_data_pos, uint32_t& current_strings_pos, uint32_t offset_from_section_start)
 {
     //Create resource directory
@@ -509,11 +523,6 @@ void rebuild_resource_directory(pe_base& pe, section& resource_section, resource
     dir.MajorVersion = root.get_major_version();
     dir.MinorVersion = root.get_minor_version();
     dir.TimeDateStamp = root.get_timestamp();
-    
-    {
-        resource_directory::entry_list& entries = root.get_entry_list();
-        std::sort(entries.begin(), entries.end(), entry_sorter());
-    }
 
     //Calculate number of named and ID entries
     for(resource_directory::entry_list::const_iterator it = root.get_entry_list().begin(); it != root.get_entry_list().end(); ++it)
@@ -628,6 +637,9 @@ const image_directory rebuild_resources(pe_base& pe, resource_directory& info, s
 
     calculate_resource_data_space(info, aligned_offset_from_section_start, needed_size_for_structures, needed_size_for_strings);
 
+    //Alignment of data depends on order of entries, so needed size must be calculated for the order they will be written in
+    sort_resource_directories(info);
+
     {
         uint32_t current_data_pos = aligned_offset_from_section_start + needed_size_for_structures + needed_size_for_strings;
         calculate_resource_data_space(info, needed_size_for_structures, needed_size_for_strings, needed_size_for_data, current_data_pos);
-- 
2.43.0


From 0e15338335c57007d48ad67b11cdd764af6be77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:39 +0000
Subject: [PATCH 58/76] fix: refuse to write resource IDs which can't be read
 back

---
 src/pe_lib/pe_resources.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 4b62627..ef7a808 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -463,7 +463,7 @@ void calculate_resource_data_space(const resource_directory& root, uint32_t alig
 #endif
             needed_size_for_strings += static_cast<uint32_t>(((*it).get_name().length() + 1) * 2 /* unicode */ + sizeof(uint16_t) /* for string length */);
         }
-        else if((*it).get_id() & 0x80000000) //The highest bit is a flag of named entry
+        else if((*it).get_id() > pe_utils::max_word) //IDs are read as WORDs, the highest bit is a flag of named entry
         {
             throw pe_exception("Incorrect resource ID", pe_exception::resource_directory_entry_error);
         }
-- 
2.43.0


From 604599c7f4fd42c865dfaab29b096e1ac7447b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:30 +0000
Subject: [PATCH 59/76] fix: build TLS callback list before changing sections

---
 src/pe_lib/pe_tls.cpp | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/pe_lib/pe_tls.cpp b/src/pe_lib/pe_tls.cpp
index 27bb49e..ca4db29 100644
--- a/src/pe_lib/pe_tls.cpp
+++ b/src/pe_lib/pe_tls.cpp
@@ -245,6 +245,23 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
     if(info.get_raw_data_end_rva() < info.get_raw_data_start_rva() || info.get_index_rva() == 0)
         throw pe_exception("Incorrect TLS directory", pe_exception::incorrect_tls_directory);
 
+    //Convert TLS callbacks RVAs to VAs before anything is written
+    std::vector<typename PEClassType::BaseSize> callbacks_virtual_addresses;
+    if(write_tls_callbacks && info.get_callbacks_rva())
+    {
+        callbacks_virtual_addresses.reserve(info.get_tls_callbacks().size() + 1 /* last null element */);
+
+        for(tls_info::tls_callback_list::const_iterator it = info.get_tls_callbacks().begin(); it != info.get_tls_callbacks().end(); ++it)
+        {
+            typename PEClassType::BaseSize cb_va = 0;
+            pe.rva_to_va(*it, cb_va);
+            callbacks_virtual_addresses.push_back(cb_va);
+        }
+
+        //Ending null element
+        callbacks_virtual_addresses.push_back(0);
+    }
+
     std::string& raw_data = tls_section.get_raw_data();
 
     //This will be done only if tls_section is the last section of image or for section with unaligned raw length of data
@@ -348,20 +365,6 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
             < needed_callback_size /* check here full virtual data length available */)
             throw pe_exception("Insufficient space for TLS callbacks data", pe_exception::insufficient_space);
 
-        std::vector<typename PEClassType::BaseSize> callbacks_virtual_addresses;
-        callbacks_virtual_addresses.reserve(info.get_tls_callbacks().size() + 1 /* last null element */);
-
-        //Convert TLS RVAs to VAs
-        for(tls_info::tls_callback_list::const_iterator it = info.get_tls_callbacks().begin(); it != info.get_tls_callbacks().end(); ++it)
-        {
-            typename PEClassType::BaseSize cb_va = 0;
-            pe.rva_to_va(*it, cb_va);
-            callbacks_virtual_addresses.push_back(cb_va);
-        }
-
-        //Ending null element
-        callbacks_virtual_addresses.push_back(0);
-
         //Write callbacks TLS data (last zero element can be virtual only)
         memcpy(pe.section_data_from_rva(info.get_callbacks_rva(), true), &callbacks_virtual_addresses[0],
             std::min<uint32_t>(needed_callback_size, pe.section_data_length_from_rva(info.get_callbacks_rva(), info.get_callbacks_rva(), section_data_raw, true)));
-- 
2.43.0


From 56cb1f50b23526375e4ba2cfc947ea5dcf413654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:59 +0000
Subject: [PATCH 60/76] fix: report lack of memory when version information is
 formatted

---
 src/pe_lib/file_version_info.h     | 1 +
 src/pe_lib/version_info_editor.cpp | 1 +
 src/pe_lib/version_info_viewer.cpp | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/src/pe_lib/file_version_info.h b/src/pe_lib/file_version_info.h
index d32a15a..41a3a8f 100644
--- a/src/pe_lib/file_version_info.h
+++ b/src/pe_lib/file_version_info.h
@@ -154,6 +154,7 @@ private:
     static const std::basic_string<T> get_version_string(uint32_t ms, uint32_t ls)
     {
         std::basic_stringstream<T> ss;
+        ss.exceptions(std::ios_base::badbit); //Lack of memory must be reported
         ss << (ms >> 16) << static_cast<T>(L'.')
             << (ms & 0xFFFF) << static_cast<T>(L'.')
             << (ls >> 16) << static_cast<T>(L'.')
diff --git a/src/pe_lib/version_info_editor.cpp b/src/pe_lib/version_info_editor.cpp
index 8bc8403..a7e5d70 100644
--- a/src/pe_lib/version_info_editor.cpp
+++ b/src/pe_lib/version_info_editor.cpp
@@ -140,6 +140,7 @@ void version_info_editor::remove_translation(uint16_t language_id, uint16_t code
     {
         //Erase string table (if exists)
         std::wstringstream ss;
+        ss.exceptions(std::ios_base::badbit); //Lack of memory must be reported
         ss << std::hex
             << std::setw(4) << std::setfill(L'0') << language_id
             << std::setw(4) << std::setfill(L'0') << codepage_id;
diff --git a/src/pe_lib/version_info_viewer.cpp b/src/pe_lib/version_info_viewer.cpp
index 9f8c7a3..9e9e2d9 100644
--- a/src/pe_lib/version_info_viewer.cpp
+++ b/src/pe_lib/version_info_viewer.cpp
@@ -77,6 +77,7 @@ const version_info_viewer::translation_list version_info_viewer::get_translation
     {
         //Create string representation of translation value
         std::wstringstream ss;
+        ss.exceptions(std::ios_base::badbit); //Lack of memory must be reported
         ss << std::hex
             << std::setw(4) << std::setfill(L'0') << (*it).first
             << std::setw(4) << std::setfill(L'0') <<  (*it).second;
@@ -150,6 +151,7 @@ const version_info_viewer::translation_pair version_info_viewer::translation_fro
     {
         //Convert string to DWORD
         std::wstringstream ss;
+        ss.exceptions(std::ios_base::badbit); //Lack of memory must be reported
         ss << std::hex << translation;
         ss >> translation_id;
     }
-- 
2.43.0


From 2785dd1b014c57506390d29bd342786801c4547a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:34 +0000
Subject: [PATCH 61/76] fix: map section data again when its virtual size has
 changed

---
 src/pe_lib/pe_section.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_section.cpp b/src/pe_lib/pe_section.cpp
index b5ce009..f5b27cb 100644
--- a/src/pe_lib/pe_section.cpp
+++ b/src/pe_lib/pe_section.cpp
@@ -146,12 +146,18 @@ std::string& section::get_virtual_data(uint32_t section_alignment)
 void section::map_virtual(uint32_t section_alignment) const
 {
     uint32_t aligned_virtual_size = get_aligned_virtual_size(section_alignment);
-    if(old_size_ == static_cast<size_t>(-1) && aligned_virtual_size && aligned_virtual_size > raw_data_.length())
+    const size_t raw_size = old_size_ == static_cast<size_t>(-1) ? raw_data_.length() : old_size_;
+
+    //Virtual size of already mapped section could have been changed
+    if(aligned_virtual_size > raw_size)
     {
-        const size_t raw_size = raw_data_.length();
         raw_data_.resize(aligned_virtual_size, 0);
         old_size_ = raw_size;
     }
+    else
+    {
+        unmap_virtual();
+    }
 }
 
 //Unmaps virtual section data
-- 
2.43.0


From d4b8dbaf7ed07fcc5cda279b4101bae2c2a4fb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:25 +0000
Subject: [PATCH 62/76] fix: no data directory exists when their number is zero

---
 src/pe_lib/pe_properties_generic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_properties_generic.cpp b/src/pe_lib/pe_properties_generic.cpp
index 40abf8c..a842206 100755
--- a/src/pe_lib/pe_properties_generic.cpp
+++ b/src/pe_lib/pe_properties_generic.cpp
@@ -44,7 +44,7 @@ pe_properties_generic<PEClassType>::~pe_properties_generic()
 template<typename PEClassType>
 bool pe_properties_generic<PEClassType>::directory_exists(uint32_t id) const
 {
-    return (nt_headers_.OptionalHeader.NumberOfRvaAndSizes - 1) >= id &&
+    return nt_headers_.OptionalHeader.NumberOfRvaAndSizes > id &&
         nt_headers_.OptionalHeader.DataDirectory[id].VirtualAddress;
 }
 
-- 
2.43.0


From 95c6df6360ade992bdec28f335cbb16a1957e8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 63/76] fix: refuse version information blocks exceeding their
 parent blocks

---
 src/pe_lib/resource_version_info_reader.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pe_lib/resource_version_info_reader.cpp b/src/pe_lib/resource_version_info_reader.cpp
index 3f0933a..5594b9c 100644
--- a/src/pe_lib/resource_version_info_reader.cpp
+++ b/src/pe_lib/resource_version_info_reader.cpp
@@ -106,8 +106,8 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
         //Get VERSION_INFO_BLOCK structure pointer
         const version_info_block* block = reinterpret_cast<const version_info_block*>(resource_data.data() + child_pos);
 
-        //Check its length
-        if(block->Length == 0)
+        //Check its length: block must not exceed its parent block
+        if(block->Length == 0 || block->Length > pe_utils::align_up(root_block->Length - child_pos, sizeof(uint32_t)))
             throw_incorrect_version_info();
 
         //Check block key for null-termination
@@ -129,8 +129,8 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                 //Get VERSION_INFO_BLOCK structure pointer for string table
                 const version_info_block* string_table = reinterpret_cast<const version_info_block*>(resource_data.data() + string_table_pos);
 
-                //Check its length
-                if(string_table->Length == 0)
+                //Check its length: block must not exceed its parent block
+                if(string_table->Length == 0 || string_table->Length > pe_utils::align_up(block->Length - (string_table_pos - child_pos), sizeof(uint32_t)))
                     throw_incorrect_version_info();
 
                 //Check string table key for null-termination
@@ -150,8 +150,8 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                     //Get VERSION_INFO_BLOCK structure pointer for string block
                     const version_info_block* string_block = reinterpret_cast<const version_info_block*>(resource_data.data() + string_pos);
 
-                    //Check its length
-                    if(string_block->Length == 0)
+                    //Check its length: block must not exceed its parent block
+                    if(string_block->Length == 0 || string_block->Length > pe_utils::align_up(string_table->Length - (string_pos - string_table_pos), sizeof(uint32_t)))
                         throw_incorrect_version_info();
 
                     //Check string block key for null-termination
@@ -207,8 +207,8 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                 //Get VERSION_INFO_BLOCK structure pointer for var block
                 const version_info_block* var_table = reinterpret_cast<const version_info_block*>(resource_data.data() + var_table_pos);
 
-                //Check its length
-                if(var_table->Length == 0)
+                //Check its length: block must not exceed its parent block
+                if(var_table->Length == 0 || var_table->Length > pe_utils::align_up(block->Length - (var_table_pos - child_pos), sizeof(uint32_t)))
                     throw_incorrect_version_info();
 
                 //Check its key for null-termination
-- 
2.43.0


From 27ff65740adc6f404a3432644149ecff4530db8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:04 +0000
Subject: [PATCH 64/76] fix: offset to bits of bitmaps with long info header,
 color masks or zero bit count

---
 src/pe_lib/resource_bitmap_reader.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_bitmap_reader.cpp b/src/pe_lib/resource_bitmap_reader.cpp
index a3952d4..40cfc9a 100644
--- a/src/pe_lib/resource_bitmap_reader.cpp
+++ b/src/pe_lib/resource_bitmap_reader.cpp
@@ -52,10 +52,18 @@ const std::string resource_bitmap_reader::create_bitmap(const std::string& resou
         //Get bitmap info header
         const bitmapinfoheader* info = reinterpret_cast<const bitmapinfoheader*>(resource_data.data());
 
+        //Newer versions of bitmap info header are longer
+        if(info->biSize > sizeof(bitmapinfoheader))
+            header.bfOffBits += info->biSize - sizeof(bitmapinfoheader);
+        else if(info->biCompression == 3) //BI_BITFIELDS, three color masks follow the header
+            header.bfOffBits += 3 * sizeof(uint32_t);
+        else if(info->biCompression == 6) //BI_ALPHABITFIELDS, four color masks follow the header
+            header.bfOffBits += 4 * sizeof(uint32_t);
+
         //If color table is present, skip it
         if(info->biClrUsed != 0)
             header.bfOffBits += 4 * info->biClrUsed; //Add this size to offset to bitmap bits
-        else if(info->biBitCount <= 8)
+        else if(info->biBitCount != 0 && info->biBitCount <= 8)
             header.bfOffBits += 4 * static_cast<uint32_t>(std::pow(2.f, info->biBitCount)); //Add this size to offset to bitmap bits
     }
 
-- 
2.43.0


From efdb42608cdc8dcbe7b7a09c5f3005a1292da1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:03 +0000
Subject: [PATCH 65/76] fix: auxiliary records of unlisted COFF symbols are not
 symbols

---
 src/pe_lib/pe_debug.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 7e24e8f..97ca831 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -749,6 +749,9 @@ const debug_info_list get_debug_information(const pe_base& pe)
                             i += sym->NumberOfAuxSymbols;
                             continue;
                         }
+
+                        //Auxiliary records of other symbols are not symbols, skip them
+                        i += sym->NumberOfAuxSymbols;
                     }
 
                     info.set_advanced_debug_info(coff_info);
-- 
2.43.0


From 944e0b4056175fb1bd4083005c836b39231143d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:03 +0000
Subject: [PATCH 66/76] fix: exception table does not continue behind the end
 of its directory

---
 src/pe_lib/pe_exception_directory.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pe_lib/pe_exception_directory.cpp b/src/pe_lib/pe_exception_directory.cpp
index f613746..2c75ee5 100644
--- a/src/pe_lib/pe_exception_directory.cpp
+++ b/src/pe_lib/pe_exception_directory.cpp
@@ -130,12 +130,15 @@ const exception_entry_list get_exception_directory_data(const pe_base& pe)
     if(current_pos % sizeof(uint32_t))
         throw pe_exception("Incorrect exception directory", pe_exception::incorrect_exception_directory);
 
-    //First IMAGE_RUNTIME_FUNCTION_ENTRY table
-    image_runtime_function_entry exception_table = pe.section_data_from_rva<image_runtime_function_entry>(current_pos, section_data_virtual, true);
-
     //todo: virtual addresses BeginAddress and EndAddress are not checked to be inside image
-    while(exception_table.BeginAddress)
+    //Entries behind the end of exception directory do not belong to it
+    for(uint32_t count = pe.get_directory_size(image_directory_entry_exception) / sizeof(image_runtime_function_entry); count != 0; --count)
     {
+        //IMAGE_RUNTIME_FUNCTION_ENTRY table
+        image_runtime_function_entry exception_table = pe.section_data_from_rva<image_runtime_function_entry>(current_pos, section_data_virtual, true);
+        if(!exception_table.BeginAddress)
+            break;
+
         //Check addresses
         if(exception_table.BeginAddress > exception_table.EndAddress)
             throw pe_exception("Incorrect exception directory", pe_exception::incorrect_exception_directory);
@@ -148,7 +151,6 @@ const exception_entry_list get_exception_directory_data(const pe_base& pe)
 
         //Go to next exception entry
         current_pos += sizeof(image_runtime_function_entry);
-        exception_table = pe.section_data_from_rva<image_runtime_function_entry>(current_pos, section_data_virtual, true);
     }
 
     return ret;
-- 
2.43.0


From 936e808518bd4eef060095004bc8e2cecca134e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:03 +0000
Subject: [PATCH 67/76] fix: debug directory entries without raw data do not
 end the directory

---
 src/pe_lib/pe_base.cpp  | 4 ++--
 src/pe_lib/pe_debug.cpp | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index b3e0a74..b54f3ed 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -987,14 +987,14 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
             image_debug_directory directory = section_data_from_rva<image_debug_directory>(current_pos, section_data_virtual, true);
 
             //Iterate over all IMAGE_DEBUG_DIRECTORY directories
-            while(directory.PointerToRawData
+            while((directory.PointerToRawData || directory.Type)
                 && current_pos < get_directory_rva(image_directory_entry_debug) + get_directory_size(image_directory_entry_debug))
             {
                 //If we have something to read
                 if((directory.Type == image_debug_type_codeview
                     || directory.Type == image_debug_type_misc
                     || directory.Type == image_debug_type_coff)
-                    && directory.SizeOfData)
+                    && directory.PointerToRawData && directory.SizeOfData)
                 {
                     if(static_cast<std::streamoff>(directory.SizeOfData) > filesize)
                         throw pe_exception("Error reading file", pe_exception::error_reading_file);
diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 97ca831..21499f0 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -628,7 +628,8 @@ const debug_info_list get_debug_information(const pe_base& pe)
         throw pe_exception("Incorrect debug directory", pe_exception::incorrect_debug_directory);
 
     //Iterate over all IMAGE_DEBUG_DIRECTORY directories
-    while(directory.PointerToRawData
+    //Entries without raw data have zero data pointer
+    while((directory.PointerToRawData || directory.Type)
         && current_pos < pe.get_directory_rva(image_directory_entry_debug) + pe.get_directory_size(image_directory_entry_debug))
     {
         //Create debug information structure
-- 
2.43.0


From 3375b35ca5f92bedcea553c4e3b35fec8c6b0a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:35 +0000
Subject: [PATCH 68/76] fix: size of zero fill is written for TLS directory
 without raw data

---
 src/pe_lib/pe_tls.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_tls.cpp b/src/pe_lib/pe_tls.cpp
index ca4db29..b13d60d 100644
--- a/src/pe_lib/pe_tls.cpp
+++ b/src/pe_lib/pe_tls.cpp
@@ -279,7 +279,6 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
     {
         pe.rva_to_va(info.get_raw_data_start_rva(), va);
         tls_struct.StartAddressOfRawData = va;
-        tls_struct.SizeOfZeroFill = info.get_size_of_zero_fill();
     }
 
     if(info.get_raw_data_end_rva())
@@ -297,6 +296,7 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
         tls_struct.AddressOfCallBacks = va;
     }
 
+    tls_struct.SizeOfZeroFill = info.get_size_of_zero_fill();
     tls_struct.Characteristics = info.get_characteristics();
 
     //Save TLS structure
-- 
2.43.0


From c1f243823284d6c5f3963802971f0f2cd5c58e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:03 +0000
Subject: [PATCH 69/76] fix: failed addition of version translation does not
 leave a string table without translation

---
 src/pe_lib/version_info_editor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/version_info_editor.cpp b/src/pe_lib/version_info_editor.cpp
index a7e5d70..7dcc6cb 100644
--- a/src/pe_lib/version_info_editor.cpp
+++ b/src/pe_lib/version_info_editor.cpp
@@ -85,9 +85,9 @@ void version_info_editor::set_property(const std::wstring& property_name, const
             it = strings_edit_.begin();
             if(it == strings_edit_.end()) //If there's no any translation table, add default one
             {
-                it = strings_edit_.insert(std::make_pair(default_language_translation, string_values_map())).first;
                 //Also add it to translations list
                 add_translation(default_language_translation);
+                it = strings_edit_.insert(std::make_pair(default_language_translation, string_values_map())).first;
             }
         }
     }
@@ -96,9 +96,9 @@ void version_info_editor::set_property(const std::wstring& property_name, const
         it = strings_edit_.find(translation); //Find specified translation table
         if(it == strings_edit_.end()) //If there's no translation, add it
         {
-            it = strings_edit_.insert(std::make_pair(translation, string_values_map())).first;
             //Also add it to translations list
             add_translation(translation);
+            it = strings_edit_.insert(std::make_pair(translation, string_values_map())).first;
         }
     }
 
-- 
2.43.0


From 1dae07b8697f625555a396b51d6746c96ae92154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:48 +0000
Subject: [PATCH 70/76] fix: string table of translation is found whatever case
 its hexadecimal name has

---
 src/pe_lib/version_info_editor.cpp | 14 +++++++++++++-
 src/pe_lib/version_info_viewer.cpp | 26 ++++++++++++++++++++++++++
 src/pe_lib/version_info_viewer.h   | 13 +++++++++++++
 3 files changed, 52 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/version_info_editor.cpp b/src/pe_lib/version_info_editor.cpp
index 7dcc6cb..9e4fff9 100644
--- a/src/pe_lib/version_info_editor.cpp
+++ b/src/pe_lib/version_info_editor.cpp
@@ -80,6 +80,8 @@ void version_info_editor::set_property(const std::wstring& property_name, const
     {
         //If no translation was specified
         it = strings_edit_.find(default_language_translation); //Find default translation table
+        if(it == strings_edit_.end()) //Its name may be written with other case of HEX-digits
+            it = find_same_translation(strings_edit_.begin(), strings_edit_.end(), default_language_translation);
         if(it == strings_edit_.end()) //If there's no default translation table, take the first one
         {
             it = strings_edit_.begin();
@@ -94,6 +96,9 @@ void version_info_editor::set_property(const std::wstring& property_name, const
     else
     {
         it = strings_edit_.find(translation); //Find specified translation table
+        if(it == strings_edit_.end()) //Its name may be written with other case of HEX-digits
+            it = find_same_translation(strings_edit_.begin(), strings_edit_.end(), translation);
+
         if(it == strings_edit_.end()) //If there's no translation, add it
         {
             //Also add it to translations list
@@ -145,7 +150,14 @@ void version_info_editor::remove_translation(uint16_t language_id, uint16_t code
             << std::setw(4) << std::setfill(L'0') << language_id
             << std::setw(4) << std::setfill(L'0') << codepage_id;
         
-        strings_edit_.erase(ss.str());
+        const std::wstring translation(ss.str());
+        for(lang_string_values_map::iterator it = strings_edit_.begin(); it != strings_edit_.end();)
+        {
+            if(is_same_translation((*it).first, translation))
+                strings_edit_.erase(it++);
+            else
+                ++it;
+        }
     }
 
     //Find and erase translation from translations table
diff --git a/src/pe_lib/version_info_viewer.cpp b/src/pe_lib/version_info_viewer.cpp
index 9e9e2d9..e074078 100644
--- a/src/pe_lib/version_info_viewer.cpp
+++ b/src/pe_lib/version_info_viewer.cpp
@@ -112,12 +112,17 @@ const std::wstring version_info_viewer::get_property(const std::wstring& propert
     {
         //If no translation was specified
         it = strings_.find(default_language_translation); //Find default translation table
+        if(it == strings_.end()) //Its name may be written with other case of HEX-digits
+            it = find_same_translation(strings_.begin(), strings_.end(), default_language_translation);
         if(it == strings_.end()) //If there's no default translation table, take the first one
             it = strings_.begin();
     }
     else
     {
         it = strings_.find(translation); //Find specified translation table
+        if(it == strings_.end()) //Its name may be written with other case of HEX-digits
+            it = find_same_translation(strings_.begin(), strings_.end(), translation);
+
         if(it == strings_.end())
         {
             if(throw_if_absent)
@@ -158,4 +163,25 @@ const version_info_viewer::translation_pair version_info_viewer::translation_fro
 
     return std::make_pair(static_cast<uint16_t>(translation_id >> 16), static_cast<uint16_t>(translation_id & 0xFFFF));
 }
+
+//Returns true if translation HEX-strings differ in case of HEX-digits only (e.g. 040904b0 and 040904B0)
+bool version_info_viewer::is_same_translation(const std::wstring& translation1, const std::wstring& translation2)
+{
+    if(translation1.length() != translation2.length())
+        return false;
+
+    for(std::wstring::size_type i = 0; i != translation1.length(); ++i)
+    {
+        wchar_t digit1 = translation1[i], digit2 = translation2[i];
+        if(digit1 >= L'A' && digit1 <= L'F')
+            digit1 = static_cast<wchar_t>(digit1 - L'A' + L'a');
+        if(digit2 >= L'A' && digit2 <= L'F')
+            digit2 = static_cast<wchar_t>(digit2 - L'A' + L'a');
+
+        if(digit1 != digit2)
+            return false;
+    }
+
+    return true;
+}
 }
diff --git a/src/pe_lib/version_info_viewer.h b/src/pe_lib/version_info_viewer.h
index 8f8e1ed..6bca929 100644
--- a/src/pe_lib/version_info_viewer.h
+++ b/src/pe_lib/version_info_viewer.h
@@ -57,6 +57,19 @@ public:
     //Converts translation HEX-string to pair of language ID and codepage ID
     static const translation_pair translation_from_string(const std::wstring& translation);
 
+    //Returns true if translation HEX-strings differ in case of HEX-digits only (e.g. 040904b0 and 040904B0)
+    static bool is_same_translation(const std::wstring& translation1, const std::wstring& translation2);
+
+    //Returns first string table of the translation (case of HEX-digits is ignored) or last, if there's no such table
+    template<typename Iterator>
+    static Iterator find_same_translation(Iterator first, Iterator last, const std::wstring& translation)
+    {
+        while(first != last && !is_same_translation((*first).first, translation))
+            ++first;
+
+        return first;
+    }
+
 public:
     //Default process language, UNICODE
     static const std::wstring default_language_translation;
-- 
2.43.0


From 7f36d37251c8aa5b81616198cdf041fcc099c510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:34 +0000
Subject: [PATCH 71/76] fix: message table block which ends with the maximum
 message ID is read

---
 src/pe_lib/resource_message_list_reader.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_message_list_reader.cpp b/src/pe_lib/resource_message_list_reader.cpp
index d104226..2e0dcdc 100644
--- a/src/pe_lib/resource_message_list_reader.cpp
+++ b/src/pe_lib/resource_message_list_reader.cpp
@@ -41,7 +41,7 @@ const resource_message_list resource_message_list_reader::parse_message_list(con
         uint32_t current_pos = 0;
         static const uint32_t size_of_entry_headers = 4;
         //List all message resource entries in block
-        for(uint32_t curr_id = block->LowId; curr_id <= block->HighId; curr_id++)
+        for(uint32_t curr_id = block->LowId; ; curr_id++)
         {
             //Check resource data length and some possible overflows
             if(!pe_utils::is_sum_safe(block->OffsetToEntries, current_pos)
@@ -91,6 +91,10 @@ const resource_message_list resource_message_list_reader::parse_message_list(con
 
             //Go to next entry
             current_pos += entry->Length;
+
+            //Last entry of block is read (its ID may be the maximum one)
+            if(curr_id == block->HighId)
+                break;
         }
     }
 
-- 
2.43.0


From deba20f62d9b4fdb6dc8f67f595c82ff552ffe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:16 +0000
Subject: [PATCH 72/76] fix: sections which do not fit into 32-bit address
 space are refused

---
 src/pe_lib/pe_base.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index b54f3ed..df9f656 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -330,6 +330,11 @@ void pe_base::set_section_virtual_size(section& s, uint32_t vsize)
     if(sections_.empty() || std::find_if(sections_.begin(), sections_.end() - 1, section_ptr_finder(s)) != sections_.end() - 1)
         throw pe_exception("Can't change virtual size of any section, except last one", pe_exception::error_changing_section_virtual_size);
 
+    //Check that section end does not exceed 32-bit address space
+    if(!pe_utils::is_sum_safe(vsize, get_section_alignment() - 1)
+        || !pe_utils::is_sum_safe(s.get_virtual_address(), pe_utils::align_up(vsize, get_section_alignment())))
+        throw pe_exception("Section virtual size is too big", pe_exception::error_changing_section_virtual_size);
+
     //If we're setting virtual size to zero
     if(vsize == 0)
     {
@@ -360,6 +365,10 @@ bool pe_base::expand_section(section& s, uint32_t needed_rva, uint32_t needed_si
     if(sections_.empty() || std::find_if(sections_.begin(), sections_.end() - 1, section_ptr_finder(s)) != sections_.end() - 1)
         throw pe_exception("Can't expand any section, except last one", pe_exception::error_expanding_section);
 
+    //Check for possible overflow
+    if(!pe_utils::is_sum_safe(needed_rva, needed_size))
+        throw pe_exception("Can't expand section out of 32-bit address space", pe_exception::error_expanding_section);
+
     //Check if we should expand our section
     if(expand == expand_section_raw && section_data_length_from_rva(s, needed_rva, section_data_raw) < needed_size)
     {
@@ -454,6 +463,11 @@ section& pe_base::add_section(section s, bool autoupdate /*= true*/)
     if(sections_.size() >= maximum_number_of_sections)
         throw pe_exception("Maximum number of sections has been reached", pe_exception::no_more_sections_can_be_added);
 
+    //Check that aligning of virtual address and size is safe
+    if(!pe_utils::is_sum_safe(s.get_virtual_address(), get_section_alignment() - 1)
+        || !pe_utils::is_sum_safe(s.get_virtual_size(), get_section_alignment() - 1))
+        throw pe_exception("Section virtual address or size is too big", pe_exception::section_incorrect_addr_or_size);
+
     //Prepare section before adding it
     prepare_section(s);
 
@@ -462,6 +476,11 @@ section& pe_base::add_section(section s, bool autoupdate /*= true*/)
     {
         s.set_virtual_address(pe_utils::align_up(sections_.back().get_virtual_address() + sections_.back().get_aligned_virtual_size(get_section_alignment()), get_section_alignment()));
 
+        //Check that section end does not exceed 32-bit address space
+        if(s.get_virtual_address() < sections_.back().get_virtual_address()
+            || !pe_utils::is_sum_safe(s.get_virtual_address(), s.get_aligned_virtual_size(get_section_alignment())))
+            throw pe_exception("Section does not fit into address space of image", pe_exception::section_incorrect_addr_or_size);
+
         //We should align last section raw size, if it wasn't aligned
         section& last = sections_.back();
 
@@ -474,6 +493,10 @@ section& pe_base::add_section(section s, bool autoupdate /*= true*/)
             s.get_virtual_address() == 0
             ? pe_utils::align_up(get_size_of_headers(), get_section_alignment())
             : pe_utils::align_up(s.get_virtual_address(), get_section_alignment()));
+
+        //Check that section end does not exceed 32-bit address space
+        if(!pe_utils::is_sum_safe(s.get_virtual_address(), s.get_aligned_virtual_size(get_section_alignment())))
+            throw pe_exception("Section does not fit into address space of image", pe_exception::section_incorrect_addr_or_size);
     }
 
     //Add section to the end of section list
-- 
2.43.0


From b079bb796e84176035139a45c45c790f277f95f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:47 +0000
Subject: [PATCH 73/76] fix: section which ends at 4 GB or beyond is refused on
 loading

---
 src/pe_lib/pe_base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index df9f656..a21e631 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -944,7 +944,8 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
         }
 
         //Check virtual address and size of section
-        if(s.get_virtual_address() + s.get_aligned_virtual_size(get_section_alignment()) > pe_utils::align_up(get_size_of_image(), get_section_alignment()))
+        if(!pe_utils::is_sum_safe(s.get_virtual_address(), s.get_aligned_virtual_size(get_section_alignment()))
+            || s.get_virtual_address() + s.get_aligned_virtual_size(get_section_alignment()) > pe_utils::align_up(get_size_of_image(), get_section_alignment()))
             throw pe_exception("Incorrect section address or size", pe_exception::section_incorrect_addr_or_size);
 
         //Save section
-- 
2.43.0


From 7ca6ab41e3b77378a3b749f4f708ffbb412a9d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:48 +0000
Subject: [PATCH 74/76] fix: export directory without names is read wherever
 its name tables point to

---
 src/pe_lib/pe_exports.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_exports.cpp b/src/pe_lib/pe_exports.cpp
index 2a987be..522e113 100644
--- a/src/pe_lib/pe_exports.cpp
+++ b/src/pe_lib/pe_exports.cpp
@@ -326,7 +326,8 @@ const exported_functions_list get_exported_functions(const pe_base& pe, export_i
             < exports.NumberOfFunctions * sizeof(uint32_t))
             throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
 
-        if(exports.AddressOfNames)
+        //Tables without elements take no place and are not checked
+        if(exports.AddressOfNames && exports.NumberOfNames)
         {
             //Check if it is enough bytes to hold name and ordinal tables
             if(pe.section_data_length_from_rva(exports.AddressOfNameOrdinals, exports.AddressOfNameOrdinals, section_data_virtual, true)
-- 
2.43.0


From 65ae1ac13dae6807bdc14eeda614883214cc597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:48 +0000
Subject: [PATCH 75/76] fix: data length of sections larger than 2 GB is not
 zero

---
 src/pe_lib/pe_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index a21e631..b1f0566 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -719,7 +719,7 @@ uint32_t pe_base::section_data_length_from_rva(const section& s, uint32_t rva_in
     if(rva_inside >= s.get_virtual_address() && rva_inside < s.get_virtual_address() + s.get_aligned_virtual_size(get_section_alignment()))
     {
         //Calculate remaining length of section data from "rva" address
-        int32_t length = static_cast<int32_t>(datatype == section_data_raw ? s.get_raw_data().length() /* instead of SizeOfRawData */ : s.get_aligned_virtual_size(get_section_alignment()))
+        int64_t length = static_cast<int64_t>(datatype == section_data_raw ? s.get_raw_data().length() /* instead of SizeOfRawData */ : s.get_aligned_virtual_size(get_section_alignment()))
             + s.get_virtual_address() - rva_inside;
 
         if(length < 0)
-- 
2.43.0


From 5ad249df9f5bcc06cbab13919ef77ec498d29cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:43 +0000
Subject: [PATCH 76/76] fix: empty resource data which ends at the end of its
 section is read

---
 src/pe_lib/pe_resources.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index ef7a808..863966b 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -422,6 +422,14 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
             image_resource_data_entry data_entry = pe.section_data_from_rva<image_resource_data_entry>(
                 res_rva + dir_entry.DirItem.OffsetToData, section_data_virtual, true);
 
+            //Empty data occupies no bytes, so it may end right where its section does
+            if(data_entry.Size == 0)
+            {
+                entry.add_data_entry(resource_data_entry(std::string(), data_entry.CodePage));
+                ret.add_resource_directory_entry(entry);
+                continue;
+            }
+
             //Check byte count that stated by data entry
             if(pe.section_data_length_from_rva(data_entry.OffsetToData, data_entry.OffsetToData, section_data_virtual, true) < data_entry.Size)
                 throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
-- 
2.43.0

