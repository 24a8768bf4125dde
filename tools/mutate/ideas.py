"""Hand-written changes that break a property: (property, file, old, new). `ideas.py [FROM[-TO]] [-jN]` applies each to a
scratch copy of the repository and says whether the quick check of its property refuses it. They need not pass the
repository's own tests (those that do and were missed became planted bugs, see tools/seed)."""
import json
import os
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.environ.get("MUT_VERIF") or os.path.dirname(os.path.dirname(HERE))
MAIN, THUMB, WRAP, IR, DEF, ITEM, TY = ("src/main.rs", "src/thumb.rs", "src/wrapper.rs", "src/ir.rs", "src/ir/define.rs", "src/ir/item.rs", "src/ir/ty.rs")
IDEAS = []


def i(prop, f, old, new, nth=None):
    IDEAS.append((prop, f, old, new, nth))


# ---------------------------------------------------------------- C01 .. C03
i("C01", MAIN, "iter.next().map(|first| iter.fold(first, max))", "iter.next().map(|first| iter.take(7).fold(first, max))")
i("C01", MAIN, "(Max::Exact(lhs), Max::Exact(rhs)) => Max::Exact(cmp::max(lhs, rhs)),", "(Max::Exact(lhs), Max::Exact(rhs)) => Max::Exact(u64::from(cmp::max(lhs as u32, rhs as u32))),")
i("C01", MAIN, "(Max::LowerBound(lhs), Local::Exact(rhs)) => Max::LowerBound(lhs + rhs),", "(Max::LowerBound(lhs), Local::Exact(rhs)) => Max::LowerBound(cmp::max(lhs, rhs)),")
i("C01", MAIN, "(Max::LowerBound(lhs), Max::Exact(rhs)) => Max::LowerBound(cmp::max(lhs, rhs)),", "(Max::LowerBound(lhs), Max::Exact(_)) => Max::LowerBound(lhs),")
i("C01", MAIN, "            if let Some(max) = neighbors_max {\n                g[node].max = Some(max + g[node].local);", "            if let Some(max) = neighbors_max.filter(|max| !matches!(max, Max::LowerBound(0))) {\n                g[node].max = Some(max + g[node].local);")
i("C02", MAIN, "                    if n != 0 {\n                        scc_local", "                    if n > 4 {\n                        scc_local")
i("C02", MAIN, "                cycles.push(scc.clone());", "                if scc.len() < 9 {\n                    cycles.push(scc.clone());\n                }")
i("C02", MAIN, "            let is_a_cycle = scc.len() > 1\n", "            let is_a_cycle = scc.len() > 1 && scc.iter().any(|n| !g[*n].name.starts_with('<'))\n")
i("C02", MAIN, "        for node in cycle {", "        for node in cycle.iter().filter(|n| !g[**n].dashed) {")
i("C02", MAIN, "                                Some(g[neighbor].max.expect(\"UNREACHABLE\"))", "                                g[neighbor].max.filter(|_| !g[neighbor].dashed)")
i("C02", MAIN, "max_of(scc.iter().map(|node| g[*node].local.into())).expect(\"UNREACHABLE\");", "max_of(scc.iter().filter(|n| scc.len() < 4 || g[**n].local != Local::Unknown).map(|node| g[*node].local.into())).unwrap_or(Max::Exact(0));")
i("C02", MAIN, "                    if let Some(max) = neighbors_max {\n                        node.max = Some(max + scc_local);", "                    if let Some(max) = neighbors_max.filter(|m| *m != Max::Exact(0)) {\n                        node.max = Some(max + scc_local);")
i("C02", MAIN, "                    .any(|n| n == first);", "                    .any(|n| n == first && !g[n].dashed && g[n].local != Local::Exact(0));")
i("C03", MAIN, "(Max::Exact(lhs), Local::Unknown) => Max::LowerBound(lhs),", "(Max::Exact(lhs), Local::Unknown) => {\n                if lhs == 0 {\n                    Max::Exact(0)\n                } else {\n                    Max::LowerBound(lhs)\n                }\n            }")
i("C03", MAIN, "let idx = g.add_node(Node(*func, None, false));", "let idx = g.add_node(Node(*func, stack_sizes.get(*func).cloned(), false));")
i("C03", MAIN, "let idx = g.add_node(Node(sym, None, false));", "let idx = g.add_node(Node(sym, stack_sizes.get(sym).cloned(), false));")
i("C03", MAIN, "            let extern_sym = g.add_node(Node(\"?\", None, false));", "            let extern_sym = g.add_node(Node(\"?\", if callees.is_empty() { None } else { Some(0) }, false));")
i("C03", MAIN, "                    g[caller].local = Local::Exact(stack);\n", "                    g[caller].local = Local::Exact(stack);\n                } else if !indirect && !modifies_sp || our_stack.is_none() && fns_containing_asm.contains(&canonical_name) && g[caller].local == Local::Unknown {\n                    g[caller].local = Local::Exact(0);\n")
i("C03", MAIN, "            (Max::Exact(lhs), Max::LowerBound(rhs)) => Max::LowerBound(lhs + rhs),", "            (Max::Exact(lhs), Max::LowerBound(rhs)) if rhs == 0 => Max::Exact(lhs),\n            (Max::Exact(lhs), Max::LowerBound(rhs)) => Max::LowerBound(lhs + rhs),")
i("C03", MAIN, "        (Max::LowerBound(lhs), Max::LowerBound(rhs)) => Max::LowerBound(cmp::max(lhs, rhs)),", "        (Max::LowerBound(lhs), Max::LowerBound(rhs)) if lhs == 0 && rhs == 0 => Max::Exact(0),\n        (Max::LowerBound(lhs), Max::LowerBound(rhs)) => Max::LowerBound(cmp::max(lhs, rhs)),")
# ---------------------------------------------------------------- C04
i("C04", MAIN, "hits.iter().any(|key| indices[*key] != indices[hits[0]])", "hits.iter().take(2).any(|key| indices[*key] != indices[hits[0]])")
i("C04", MAIN, "let start = indices.get(start).cloned().or_else(|| {", "let start = indices.get(start).cloned().filter(|i| g[*i].name == start).or_else(|| {")
i("C04", MAIN, "                    if path_of(key, &rustc_demangle::demangle(key).to_string()) == Some(start) {", "                    if key.starts_with(\"_ZN\") && dehash(&rustc_demangle::demangle(key).to_string()) == Some(start) {")
i("C04", MAIN, "                    if path_of(key, &rustc_demangle::demangle(key).to_string()) == Some(start) {", "                    if dehash(&rustc_demangle::demangle(key).to_string()).map(|d| d == start || d.ends_with(&format!(\"::{}\", start))) == Some(true) {")
i("C04", MAIN, "                    g2.add_edge(caller2, callee2, ());", "                    if !g[callee1].dashed || g2.find_edge(caller2, callee2).is_none() && caller1 != callee1 {\n                        g2.add_edge(caller2, callee2, ());\n                    }")
i("C04", MAIN, "                    g2.add_edge(caller2, callee2, ());", "                    if g[callee1].name != \"?\" || g[caller1].dashed {\n                        g2.add_edge(caller2, callee2, ());\n                    }")
i("C04", MAIN, "            error!(\"start point not found; the graph will not be filtered\")", "            error!(\"start point not found; the graph will not be filtered\");\n            g.retain_nodes(|g, n| !g[n].dashed)")
i("C04", MAIN, "            if hits.iter().any(|key| indices[*key] != indices[hits[0]]) {", "            if hits.len() > 1 {")
# ---------------------------------------------------------------- C05
i("C05", MAIN, "                            indices.insert((*func).into(), idx);\n", "")
i("C05", MAIN, "                        indices.insert(Cow::Borrowed(sym), idx);\n", "")
i("C05", MAIN, "        let callees_seen = edges.entry(caller).or_default();\n\n        for stmt", "        let callees_seen = &mut HashSet::new();\n        edges.entry(caller).or_default();\n\n        for stmt")
i("C05", MAIN, "const SYMBOLLESS_INTRINSICS: &[&str] = &[\"memcmp\"];", "const SYMBOLLESS_INTRINSICS: &[&str] = &[\"memcmp\", \"bcmp\"];")
i("C05", MAIN, "SYMBOLLESS_INTRINSICS.contains(func) && !indices.contains_key(*func)", "SYMBOLLESS_INTRINSICS.contains(func)")
i("C05", MAIN, "                    if !callees_seen.contains(&callee) {\n                        callees_seen.insert(callee);\n                        g.add_edge(caller, callee, ());\n                    }\n                }\n\n                Stmt::IndirectCall", "                    if callee != caller && !callees_seen.contains(&callee) {\n                        callees_seen.insert(callee);\n                        g.add_edge(caller, callee, ());\n                    }\n                }\n\n                Stmt::IndirectCall")
i("C05", MAIN, "let callee = if let Some(canon) = aliases.get(func) {\n                        indices[*canon]", "let callee = if let Some(canon) = aliases.get(func) {\n                        if target_.is_thumb() && declares.contains_key(func) && !defines.contains_key(func) { continue; }\n                        indices[*canon]")
i("C05", MAIN, "                        \"llvm.trap\" => continue,", "                        \"llvm.trap\" => break,")
i("C05", MAIN, "        let canonical_name = match aliases.get(&define.name) {\n            Some(canonical_name) => canonical_name,", "        let canonical_name = match aliases.get(&define.name) {\n            Some(canonical_name) if defined.contains(*canonical_name) => continue,\n            Some(canonical_name) => canonical_name,")
# ---------------------------------------------------------------- C06
i("C06", MAIN, "if addr >= address && addr < (address + size) {", "if addr > address && addr < (address + size) {")
i("C06", MAIN, "if addr >= address && addr < (address + size) {", "if addr >= address && addr <= (address + size) {")
i("C06", MAIN, "if addr >= address && addr < (address + size) {", "if addr < address && our_stack.is_none() || addr >= address && addr < (address + size) {")
i("C06", MAIN, "                let addr = (address as i64 + i64::from(offset)) as u64;", "                let addr = (address as i32 + offset) as u32 as u64 & 0x0fff_ffff;")
i("C06", MAIN, "let caller = addr2index[&u64::from(address)];", "let caller = indices[canonical_name];")
i("C06", MAIN, "name.starts_with(\"$d\")", "name == \"$d\" || name.starts_with(\"$d.0\")")
i("C06", MAIN, "\"thumbv7m-none-eabi\" | \"thumbv7em-none-eabi\" | \"thumbv7em-none-eabihf\" => Target::Thumbv7m", "\"thumbv7m-none-eabi\" | \"thumbv7em-none-eabi\" => Target::Thumbv7m")
i("C06", MAIN, "u64::from(address) - sect.address() < sect.size()", "u64::from(address) - sect.address() + 2 < sect.size()")
i("C06", MAIN, "                    size = cmp::min(end, stext + text.len() as u32) - address;", "                    size = cmp::min(cmp::min(end, stext + text.len() as u32) - address, 0x200);")
i("C06", THUMB, "sign_extend(imm8 << 1, 9)", "sign_extend(imm8 << 1, 10)")
# ---------------------------------------------------------------- C07
i("C07", MAIN, "if key_sig.loosely_equal(sig) {", "if key_sig.loosely_equal(sig) && !(has_callees && indirect.callees.len() > 3) {")
i("C07", MAIN, ".filter_map(|name| declares.get(name).and_then(|decl| decl.sig.clone()))\n            .next()", ".take(1)\n            .filter_map(|name| declares.get(name).and_then(|decl| decl.sig.clone()))\n            .next()")
i("C07", MAIN, "if let Some(def) = names.iter().filter_map(|name| defines.get(name)).next() {", "if let Some(def) = defines.get(canonical_name) {")
i("C07", MAIN, "let call = g.add_node(Node(name.clone(), Some(0), true));", "let call = g.add_node(Node(name.clone(), Some(if callees.is_empty() { 4 } else { 0 }), true));")
i("C07", MAIN, "                            indirect.callers.insert(caller);", "                            if !indirect.callees.contains(&caller) {\n                                indirect.callers.insert(caller);\n                            }")
i("C07", MAIN, "        name.push('*');", "        if sig.output.is_some() || !sig.inputs.is_empty() {\n            name.push('*');\n        }")
i("C07", TY, "(Self::MVTVector(l0, l1), Self::MVTVector(r0, r1)) => l0 == r0 && l1 == r1,", "(Self::MVTVector(l0, _), Self::MVTVector(r0, _)) => l0 == r0,")
i("C07", TY, "(Self::Fn(l0), Self::Fn(r0)) => l0 == r0,", "(Self::Fn(l0), Self::Fn(r0)) => l0.inputs == r0.inputs,")
i("C07", DEF, "    let i = alt((\n        map(super::bitcast, drop),\n        map(super::getelementptr, drop),\n        map(super::local, drop),", "    let i = alt((\n        map(super::bitcast, drop),\n        map(super::local, drop),\n        map(super::getelementptr, drop),")
# ---------------------------------------------------------------- C08 / C23
i("C08", THUMB, "let register = (u16::from(m) << 14) | u16::from(register_list);", "let register = (u16::from(m) << 7) | u16::from(register_list);")
i("C08", THUMB, "            if (imm32 as usize) < bytes.len() {\n                // this is an `if`; give up", "            if (imm32 as usize) < bytes.len() - 2 {\n                // this is an `if`; give up")
i("C08", MAIN, "                            if *llvm_stack == 0 && stack != *llvm_stack {", "                            if *llvm_stack == 0 && stack > 4 {")
i("C08", MAIN, "                } else if let Some(stack) = our_stack {\n                    g[caller].local", "                } else if let Some(stack) = our_stack.filter(|_| !indirect || defined.contains(canonical_name)) {\n                    g[caller].local")
i("C23", THUMB, "matches(first, \"0b1011_1111_xxxx_xxxx\")", "matches(first, \"0b1011_1111_0xxx_xxxx\")")
i("C23", THUMB, "matches(first, \"0b1011_1010_01_xxx_xxx\")", "matches(first, \"0b1011_1010_01_xxx_xx0\")")
i("C23", THUMB, "matches(first, \"0b1100_0_xxx_xxxxxxxx\")", "matches(first, \"0b1100_0_xxx_xxxxxxx0\")")
i("C23", THUMB, "for _ in 1..(end - start) / 2 {", "for _ in 1..((end - start) / 2) as u8 {")
i("C23", THUMB, "if tags[needle].1 == Tag::Data {", "if tags[needle].1 == Tag::Data && i != 0 {")
# ---------------------------------------------------------------- C09, C10
i("C09", MAIN, "stack_sizes.entry(name.to_owned()).or_insert(stack);", "stack_sizes.insert(name.to_owned(), stack);")
i("C09", MAIN, "            buf.clear();\n", "")
i("C09", MAIN, "id.contains(\"compiler_builtins\")", "id.starts_with(\"compiler_builtins\")")
i("C09", MAIN, "if let Some(needle) = names.iter().find(|name| stack_sizes.contains_key(&***name)) {", "if let Some(needle) = names.iter().take(2).find(|name| stack_sizes.contains_key(&***name)) {")
i("C09", MAIN, "if let Some(needle) = names.iter().find(|name| stack_sizes.contains_key(&***name)) {", "if let Some(needle) = names.iter().filter(|name| stack_sizes.contains_key(&***name)).max_by_key(|name| stack_sizes[&***name]) {")
i("C10", MAIN, "        for name in names.iter().copied() {\n            indices.insert(name.into(), idx);\n        }", "        for name in names.iter().copied().take(3) {\n            indices.insert(name.into(), idx);\n        }")
i("C10", MAIN, ".map(|(k, v)| (k & !1, v))", ".map(|(k, v)| (if k & 2 == 0 { k & !1 } else { k }, v))")
i("C10", MAIN, "name == \"$a\"", "name.starts_with(\"$\")")
# ---------------------------------------------------------------- C13
i("C13", MAIN, "func.starts_with(\"llvm.memmove.\")", "func.starts_with(\"llvm.memmove.p0\")")
i("C13", MAIN, "indices.get(\"__aeabi_memmove4\")", "indices.get(\"__aeabi_memcpy4\")")
i("C13", MAIN, "if let Some(callee) = indices.get(\"memclr\") {\n                            call(*callee);\n                        }", "if let Some(callee) = indices.get(\"memclr\").filter(|_| !indices.contains_key(\"memset\")) {\n                            call(*callee);\n                        }")
i("C13", MAIN, "|| func.starts_with(\"llvm.uadd.sat.\")", "|| func.starts_with(\"llvm.uadd.\")")
i("C13", MAIN, "func.starts_with(\"llvm.vector.reduce.\")", "func.starts_with(\"llvm.vector.reduce.a\")")
# ---------------------------------------------------------------- C14, C15
i("C14", WRAP, "Ok(status.code().unwrap_or(-1))", "Ok(status.code().map(|c| c & 127).unwrap_or(-1))")
i("C14", WRAP, "if args.crate_name == \"compiler_builtins\" {", "if args.crate_name.starts_with(\"compiler_builtins\") {")
i("C14", WRAP, "Ok(status.code().unwrap_or(-1))", "Ok(if status.success() { 0 } else { 1 })")
i("C15", WRAP, "if arg.starts_with(NOPRELUDE) {\n                        arg = &arg[NOPRELUDE.len()..];", "if let Some(i) = arg.rfind(':') {\n                        arg = &arg[i + 1..];")
i("C15", WRAP, "let mut split = arg.splitn(2, '=');\n                    let name = split.next().unwrap(); // cannot fail\n                    let path = split.next();", "let mut split = arg.split('=');\n                    let name = split.next().unwrap(); // cannot fail\n                    let path = split.next();")
i("C15", WRAP, "let mut split = arg.splitn(2, '=');\n                    let name = split.next().unwrap(); // cannot fail\n\n", "let mut split = arg.split('=');\n                    let name = split.next().unwrap(); // cannot fail\n\n")
# ---------------------------------------------------------------- C16, C17, C24
i("C16", MAIN, "if modified > mrm {", "if modified > mrm && p.file_name() > ll.as_ref().and_then(|p| p.file_name()) {")
i("C16", MAIN, "                .starts_with(&prefix)", "                .contains(&prefix)")
i("C16", MAIN, "let prefix = format!(\"{}-\", file.replace('-', \"_\"));", "let prefix = format!(\"{}-\", file.replacen('-', \"_\", 1));")
i("C16", MAIN, "let obj = ll_path.with_extension(\"o\");", "let obj = PathBuf::from(ll_path.to_string_lossy().replacen(\".ll\", \".o\", 1));")
i("C16", MAIN, "let target = target_flag.or(project.target()).unwrap_or(&host);\n\n    let mut is_no_std", "let target = project.target().or(target_flag).unwrap_or(&host);\n\n    let mut is_no_std")
i("C16", MAIN, "let target = target_flag.or(project.target()).unwrap_or(&host);\n\n    // we know", "let target = project.target().or(target_flag).unwrap_or(&host);\n\n    // we know")
i("C17", MAIN, "return Ok(status.code().unwrap_or(1));", "return Ok(status.code().map(|c| if c > 128 { 0 } else { c }).unwrap_or(1));")
i("C17", MAIN, "        (None, Some(f)) => f,", "        (_, Some(f)) => f,")
i("C17", MAIN, "    if !status.success() {", "    if !status.success() && compiler_builtins_ll_path.is_none() {")
i("C24", MAIN, "    if args.all_features {", "    if args.all_features && args.features.is_none() {")
i("C24", MAIN, "                if value == \"\\\"none\\\"\" {", "                if value.contains(\"none\") {")
i("C24", MAIN, "        cargo.args(&[\"--target\", target]);", "        if project.target() != Some(target) {\n            cargo.args(&[\"--target\", target]);\n        }")
# ---------------------------------------------------------------- C18, C19, C20
i("C18", MAIN, "                '\"' | '\\\\' => write!(self.writer, \"\\\\\")?,", "                '\"' => write!(self.writer, \"\\\\\")?,")
i("C18", MAIN, "        if node.dashed {\n            write!", "        if node.dashed && node.max != Some(Max::LowerBound(0)) {\n            write!")
i("C18", MAIN, "label=\\\"SCC{}\\\"\", i)?;", "label=\\\"SCC{}\\\"\", cycle.len())?;")
i("C18", MAIN, "        write!(escaper, \"{}\", rustc_demangle::demangle(&node.name)).ok();", "        write!(escaper, \"{:#}\", rustc_demangle::demangle(&node.name)).ok();")
i("C19", MAIN, "    const HASH_LENGTH: usize = 19;", "    const HASH_LENGTH: usize = 20;")
i("C19", MAIN, "hash.bytes().all(|byte| byte.is_ascii_hexdigit())", "hash.bytes().any(|byte| byte.is_ascii_hexdigit())")
i("C19", MAIN, "                                *ambiguous.entry(dehashed.to_string()).or_insert(0) += 1;\n                            }\n\n                            let idx", "                                ambiguous.entry(dehashed.to_string()).or_insert(1);\n                            }\n\n                            let idx")
i("C19", MAIN, "            if ambiguous.get(dehashed) == Some(&1) {", "            if ambiguous.get(dehashed).map_or(false, |n| n & 3 == 1) {")
i("C19", MAIN, "            if ambiguous.get(dehashed) == Some(&1) {", "            if ambiguous.get(dehashed) == Some(&1) && !dehashed.starts_with('<') {")
i("C20", MAIN, "        b.cmp(&a)\n", "        (b as u32).cmp(&(a as u32))\n")
i("C20", MAIN, "        writeln!(escaper, \"{}\", name).ok();", "        writeln!(escaper, \"{:#}\", name).ok();")
i("C20", MAIN, "    for node in g.raw_nodes().iter() {\n        nodes.push(node.weight.clone());", "    for node in g.raw_nodes().iter() {\n        if node.weight.name == \"?\" {\n            continue;\n        }\n        nodes.push(node.weight.clone());")
i("C20", MAIN, "n.max.unwrap_or(Max::Exact(0))", "if n.dashed { Max::Exact(0) } else { n.max.unwrap_or(Max::Exact(0)) }")
i("C20", MAIN, "                Max::LowerBound(n) => n,\n            }\n        )?;", "                Max::LowerBound(n) => n & !3,\n            }\n        )?;")
# ---------------------------------------------------------------- C21, C22
i("C21", MAIN, "            .min()\n            .or_else", "            .last()\n            .or_else")
i("C21", MAIN, "                defines.entry(def.name).or_insert(def);", "                defines.insert(def.name, def);")
i("C22", MAIN, "        if has_untyped_symbols || callees.is_empty() {\n            if callees", "        if has_untyped_symbols && callees.len() < 3 || callees.is_empty() {\n            if callees")
i("C22", MAIN, "if !defined.contains(canonical_name) && indirect {", "if !defined.contains(canonical_name) && indirect && bls.is_empty() {")
i("C22", MAIN, "if !defined.contains(canonical_name) && indirect {", "if !defined.contains(canonical_name) && indirect && !declares.contains_key(canonical_name) {")
i("C22", MAIN, "        u64::from_str_radix(number, 10).is_ok()", "        u64::from_str_radix(number, 16).is_ok()")
i("C22", MAIN, "unmatched.entry(sig.clone()).or_default().insert(caller);", "if !defined.is_empty() && sig.output.is_some() || sig.inputs.len() < 3 {\n                            unmatched.entry(sig.clone()).or_default().insert(caller);\n                        }")
i("C22", THUMB, "            if rm != 0b1110 {\n                indirect = true;\n            }\n        } else if v7", "            if rm != 0b1110 {\n                indirect = stack != Some(0) || !modifies_sp;\n            }\n        } else if v7")
# ---------------------------------------------------------------- C11, C12
i("C11", DEF, "    let i = alt((tag(\"call\"), tag(\"invoke\")))(i)?.0;\n    let i = space1(i)?.0;\n    let i = many0", "    let i = alt((tag(\"call\"), tag(\"invoke\")))(i)?.0;\n    let i = space1(i)?.0;\n    let i = many1")
i("C11", DEF, "    alt((label, comment, |i| {", "    alt((comment, label, |i| {")
i("C11", DEF, "            if i == \"call\" || i == \"invoke\" {", "            if i == \"call\" {")
i("C12", TY, "(Self::PackedStruct(l0), Self::PackedStruct(r0)) => l0 == r0,", "(Self::PackedStruct(l0), Self::PackedStruct(r0)) => l0.len() == r0.len(),")
i("C12", TY, "                f.write_str(\" x \")?;\n                write!(f, \"{}\", ty)?;\n                f.write_str(\">\")?;", "                f.write_str(\" x \")?;\n                write!(f, \"{}\", ty)?;\n                f.write_str(\"]\")?;")
i("C12", TY, "            Type::PackedStruct(fields) => {\n                f.write_str(\"<\")?;\n                fmt_struct(f, fields)?;\n                f.write_str(\">\")?;", "            Type::PackedStruct(fields) => {\n                fmt_struct(f, fields)?;")

# ---------------------------------------------------------------- second round
i("C01", MAIN, "(Max::Exact(lhs), Local::Exact(rhs)) => Max::Exact(lhs + rhs),", "(Max::Exact(lhs), Local::Exact(rhs)) => Max::Exact((lhs + rhs) & !0 >> 16),")
i("C01", MAIN, "    let mut edges: HashMap<_, HashSet<_>> = HashMap::new(); // NodeIdx -> [NodeIdx]", "    let mut edges: HashMap<_, HashSet<_>> = HashMap::new(); // NodeIdx -> [NodeIdx]\n    if addr2index.len() > 64 {\n        edges.insert(NodeIndex::new(0), HashSet::new());\n    }")
i("C01", MAIN, "            if let Some(max) = neighbors_max {\n                g[node].max = Some(max + g[node].local);", "            if let Some(max) = neighbors_max.filter(|max| *max != Max::Exact(0)) {\n                g[node].max = Some(max + g[node].local);")
i("C01", MAIN, "                if let Some(max) = neighbors_max {\n                    node.max = Some(max + node.local);", "                if let Some(max) = neighbors_max.filter(|_| !node.dashed) {\n                    node.max = Some(max + node.local);")
i("C02", MAIN, "                            if scc.contains(&neighbor) {", "                            if scc.contains(&neighbor) || g[neighbor].name == \"?\" {")
i("C02", MAIN, "                        node.max = Some(max + scc_local);", "                        node.max = Some(if node.local == Local::Unknown { max } else { max + scc_local });")
i("C02", MAIN, "    } else if algo::is_cyclic_directed(&g) {", "    } else if algo::kosaraju_scc(&g).iter().any(|scc| scc.len() > 1) {")
i("C03", MAIN, "            Local::Unknown => Max::LowerBound(0),", "            Local::Unknown => Max::Exact(0),")
i("C03", MAIN, "            (Max::LowerBound(lhs), Local::Exact(rhs)) => Max::LowerBound(lhs + rhs),", "            (Max::LowerBound(0), Local::Exact(rhs)) if rhs > 1 << 20 => Max::Exact(rhs),\n            (Max::LowerBound(lhs), Local::Exact(rhs)) => Max::LowerBound(lhs + rhs),")
i("C03", MAIN, "        (Max::Exact(lhs), Max::LowerBound(rhs)) => Max::LowerBound(cmp::max(lhs, rhs)),", "        (Max::Exact(lhs), Max::LowerBound(rhs)) if lhs > 2 * rhs && rhs > 0 => Max::Exact(lhs),\n        (Max::Exact(lhs), Max::LowerBound(rhs)) => Max::LowerBound(cmp::max(lhs, rhs)),")
i("C03", MAIN, "                if let Max::Exact(n) = scc_local {\n                    if n != 0 {", "                if let Max::Exact(n) = scc_local {\n                    if n != 0 && scc.iter().all(|node| !g[*node].dashed) {")
i("C04", MAIN, "            let mut dfs = Dfs::new(&g, start);", "            let mut dfs = Dfs::new(&g, start);\n            g2.add_node(g[start].clone());\n            one2two.insert(start, NodeIndex::new(0));")
i("C04", MAIN, "                let mut callees = g.neighbors(caller1).detach();", "                if caller1 != start && g[caller1].name == g[start].name {\n                    continue;\n                }\n                let mut callees = g.neighbors(caller1).detach();")
i("C04", MAIN, "            // replace the old graph\n            g = g2;", "            // replace the old graph\n            if g2.edge_count() != 0 {\n                g = g2;\n            }")
i("C04", MAIN, "            // invalidate `indices` to prevent misuse\n            indices.clear();", "            has_stack_usage_info = g.node_weights().any(|node| node.local != Local::Unknown);\n            indices.clear();")
i("C05", MAIN, "        defined.insert(*canonical_name);\n        let caller = indices[*canonical_name];", "        let caller = if defined.insert(*canonical_name) {\n            indices[*canonical_name]\n        } else {\n            indices[define.name]\n        };")
i("C05", MAIN, "                    if !callees_seen.contains(&callee) {\n                        callees_seen.insert(callee);\n                        g.add_edge(caller, callee, ());\n                    }\n                }\n\n                Stmt::IndirectCall", "                    if callee != caller || !callees_seen.is_empty() {\n                        if callees_seen.insert(callee) {\n                            g.add_edge(caller, callee, ());\n                        }\n                    }\n                }\n\n                Stmt::IndirectCall")
i("C05", MAIN, "                        if let Some(idx) = indices.get(*func) {\n                            *idx\n                        } else {", "                        if let Some(idx) = indices.get(*func).filter(|idx| g[**idx].name != \"exit\") {\n                            *idx\n                        } else {")
i("C05", MAIN, "            if let Some(name) = sym.split('@').next() {", "            if let Some(name) = sym.rsplitn(2, '@').last() {")
i("C05", MAIN, "                            symbols.undefined.contains(func),", "                            symbols.undefined.contains(func) || func.contains(\"drop_in_place\"),")
i("C05", MAIN, "                        assert!(\n                            symbols.undefined.contains(func),\n                            \"BUG: callee `{}` is unknown\",\n                            func\n                        );", "                        if !symbols.undefined.contains(func) {\n                            assert!(!declares.contains_key(func), \"BUG: callee `{}` is unknown\", func);\n                            continue;\n                        }")
i("C06", MAIN, "                let callees_seen = edges.entry(caller).or_default();\n                for offset in bls {", "                let callees_seen = edges.entry(caller).or_default();\n                for offset in bls.into_iter().filter(|offset| *offset != 0) {")
i("C06", MAIN, "        tags.sort_by(|a, b| a.0.cmp(&b.0));", "        tags.sort_by(|a, b| b.1.cmp(&a.1).then(a.0.cmp(&b.0)));")
i("C06", MAIN, ".filter(|sect| sect.flags() & SHF_ALLOC != 0 && sect.get_type() != Ok(ShType::NoBits))", ".filter(|sect| sect.flags() & (SHF_ALLOC | 1) == SHF_ALLOC && sect.get_type() != Ok(ShType::NoBits))")
i("C06", MAIN, "                        .find(|next| *next > address)", "                        .find(|next| *next >= address + 2)")
i("C06", MAIN, "                                if end.1 == Tag::Thumb {\n                                    size = cmp::min(size, end.0 - start.0);", "                                if end.0 > start.0 {\n                                    size = cmp::min(size, end.0 - start.0);")
i("C07", MAIN, "                if let Type::Alias(receiver) = **receiver {\n                    Some(receiver)", "                if let Type::Alias(receiver) = **receiver {\n                    Some(receiver).filter(|r| r.contains(\"::\"))")
i("C07", MAIN, "                if all_maybe_void.len() == 1 {", "                if !all_maybe_void.is_empty() {")
i("C07", MAIN, "            if formats(&sig) {\n                fmts.insert(idx);\n            }", "            if formats(&sig) && !symbols.undefined.contains(canonical_name) && names.len() == 1 {\n                fmts.insert(idx);\n            }")
i("C08", MAIN, "                    && g[caller].local == Local::Exact(0)\n", "                    && g[caller].local != Local::Unknown\n")
i("C08", MAIN, "                if our_stack.is_none()\n                    && modifies_sp\n", "                if our_stack.is_none()\n                    && modifies_sp\n                    && indirect\n")
i("C09", MAIN, "            .map(|id| id.contains(\"compiler_builtins\") && id.ends_with(\".o\"))", "            .map(|id| id.contains(\"compiler_builtins-\") && id.ends_with(\".o\"))")
i("C09", MAIN, "            .map(|id| id.contains(\"compiler_builtins\") && id.ends_with(\".o\"))", "            .map(|id| id.contains(\"compiler_builtins\"))")
i("C09", MAIN, "            for (name, stack) in stack_sizes::analyze_object(&buf)? {", "            for (name, stack) in stack_sizes::analyze_object(&buf).unwrap_or_default() {")
i("C09", MAIN, "        .map(|(name, stack)| (name.to_owned(), stack))\n        .collect();", "        .map(|(name, stack)| (name.to_owned(), stack))\n        .filter(|(name, _)| !name.starts_with('.'))\n        .collect();")
i("C09", MAIN, "        let stack = stack_sizes.get(canonical_name).cloned();", "        let stack = stack_sizes.get(canonical_name).cloned().filter(|stack| *stack != 0 || names.len() == 1);")
i("C10", MAIN, "                    || name.starts_with(\"$x.\")", "                    || name.starts_with(\"$x\")")
i("C10", MAIN, "                // otherwise, pick the first name that's not a tag\n                names[0]", "                // otherwise, pick the first name that's not a tag\n                names.iter().find(|name| !name.starts_with('_')).unwrap_or(&names[0])")
i("C10", MAIN, "        for name in names.iter().copied() {\n            aliases.insert(name, canonical_name);\n        }", "        for name in names.iter().copied().filter(|name| names.len() < 3 || !name.is_empty() && *name != names[1]) {\n            aliases.insert(name, canonical_name);\n        }")
i("C13", MAIN, "if func.starts_with(\"llvm.memset.\") {", "if func.starts_with(\"llvm.memset.p\") {")
i("C13", MAIN, "|| func.starts_with(\"llvm.umax.\")", "|| func.starts_with(\"llvm.u\")")
i("C13", MAIN, "                        || func.starts_with(\"llvm.lifetime.end\")", "                        || func.starts_with(\"llvm.lifetime.\")\n                        || func.starts_with(\"llvm.mem\") && func.contains(\"i8.\") && callees_seen.len() > 2")
i("C13", MAIN, "                    if *func == \"llvm.experimental.noalias.scope.decl\" {", "                    if func.starts_with(\"llvm.experimental.\") {")
i("C13", MAIN, "                    if target_.is_thumb() && func.starts_with(\"llvm.\") {", "                    if (target_.is_thumb() || target.starts_with(\"thumb\")) && func.starts_with(\"llvm.\") {")
i("C13", MAIN, "                    if target_.is_thumb() && func.starts_with(\"llvm.\") {", "                    if target_.is_thumb() && func.starts_with(\"llvm.\") && !func.starts_with(\"llvm.memset\") {")
i("C14", WRAP, "rustc.arg(\"-Zemit-stack-sizes\").args(&rustc_args);", "rustc.arg(\"-Zemit-stack-sizes\").args(rustc_args.iter().filter(|arg| !arg.is_empty()));")
i("C14", WRAP, "rustc.arg(\"-Zemit-stack-sizes\").args(&rustc_args);", "if !rustc_args.iter().any(|arg| arg == \"-Zemit-stack-sizes\") {\n        rustc.arg(\"-Zemit-stack-sizes\");\n    }\n    rustc.args(&rustc_args);")
i("C14", WRAP, "        .status()\n", "        .stdin(std::process::Stdio::null())\n        .status()\n")
i("C14", WRAP, "    let mut rustc = Command::new(&rustc_path);", "    let mut rustc = Command::new(&rustc_path);\n    rustc.env_remove(\"CARGO_CALL_STACK_RUSTC_WRAPPER\");")
i("C15", WRAP, "                    if arg.starts_with(NOPRELUDE) {\n                        arg = &arg[NOPRELUDE.len()..];", "                    while arg.starts_with(NOPRELUDE) || arg.starts_with(\"priv:\") {\n                        arg = &arg[arg.find(':').unwrap() + 1..];")
i("C15", WRAP, "                            extra_filename = Some(\n                                split", "                            extra_filename = extra_filename.or(Some(\n                                split")
i("C15", WRAP, "                    out_dir = Some(\n                        args.next()\n                            .ok_or_else(|| anyhow!(\"missing argument for `--out-dir`\"))?\n                            .to_string(),\n                    );", "                    out_dir = Some(\n                        args.next()\n                            .ok_or_else(|| anyhow!(\"missing argument for `--out-dir`\"))?\n                            .trim_end_matches('/')\n                            .to_string(),\n                    );")
i("C15", WRAP, "                eprintln!(\"{}{}\", COMPILER_BUILTINS_RLIB_PATH_MARKER, path);", "                eprintln!(\"{}{}\", COMPILER_BUILTINS_RLIB_PATH_MARKER, path.trim());")
i("C16", MAIN, "        if p.extension().map(|e| e == \"ll\").unwrap_or(false) {", "        if p.to_string_lossy().ends_with(\".ll\") && !p.to_string_lossy().contains(\".0.\") {")
i("C16", MAIN, "                let modified = e.metadata()?.modified()?;", "                let modified = e.metadata()?.modified()?;\n                let modified = SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(modified.duration_since(SystemTime::UNIX_EPOCH)?.as_secs());")
i("C17", MAIN, "            compiler_builtins_rlib_path = Some(path.to_string());", "            compiler_builtins_rlib_path.get_or_insert(path.to_string());")
i("C17", MAIN, "        } else {\n            io::stderr().write_all(&line)?;\n        }", "        } else if !text.trim().is_empty() {\n            io::stderr().write_all(&line)?;\n        }")
i("C17", MAIN, "        } else {\n            io::stderr().write_all(&line)?;\n        }", "        } else {\n            eprintln!(\"{}\", text.strip_suffix('\\r').unwrap_or(text));\n        }")
i("C24", MAIN, "    for path in &crate_roots {\n        touched |= filetime::set_file_times(path, now, now).is_ok();\n    }", "    for path in &crate_roots {\n        touched = touched || filetime::set_file_times(path, now, now).is_ok();\n    }")
i("C24", MAIN, "    if !touched {", "    if !touched && root.join(\"src\").exists() {")
i("C24", MAIN, "            if path.extension().map(|ext| ext == \"rs\").unwrap_or(false) {", "            if path.extension().map(|ext| ext == \"rs\").unwrap_or(false) && entry.depth() < 4 {")
i("C24", MAIN, "            .filter_entry(|entry| entry.path() != project.target_dir())", "            .filter_entry(|entry| entry.path() != project.target_dir() && !entry.path_is_symlink())")
i("C18", MAIN, "                '\"' | '\\\\' => write!(self.writer, \"\\\\\")?,\n", "                '\"' | '\\\\' => write!(self.writer, \"\\\\\")?,\n                '{' | '}' => write!(self.writer, \"\\\\\")?,\n")
i("C18", MAIN, "            write!(self.writer, \"{}\", c)\n", "            write!(self.writer, \"{}\", if c as u32 > 0xffff { '?' } else { c })\n")
i("C18", MAIN, "            edge.target().index()\n", "            edge.target().index() % 256\n")
i("C18", MAIN, "        write!(stdout, \"\\\\nlocal = {}\\\"\", node.local,)?;", "        write!(stdout, \"\\\\nlocal = {}\\\"\", if node.dashed { Local::Exact(0) } else { node.local })?;")
i("C18", MAIN, "            writeln!(stdout, \"        {}\", node.index())?;", "            if node.index() < 100 {\n                writeln!(stdout, \"        {}\", node.index())?;\n            }")
i("C18", MAIN, "    for (i, cycle) in cycles.iter().enumerate() {\n        writeln!(stdout, \"\\n    subgraph cluster_{} {{\", i)?;", "    for (i, cycle) in cycles.iter().enumerate() {\n        writeln!(stdout, \"\\n    subgraph cluster_{} {{\", cycle[0].index() + i)?;")
i("C20", MAIN, "    writeln!(stdout, \"Usage Function\")?;", "    nodes.dedup_by(|a, b| a.name == b.name && a.dashed == b.dashed);\n    writeln!(stdout, \"Usage Function\")?;")
i("C20", MAIN, "        let b: u64 = if let Local::Exact(n) = b.local { n } else { 0 };", "        let b: u64 = if let Local::Exact(n) = b.local { n } else { 1 };")
i("C20", MAIN, "        let val: u64 = if let Local::Exact(n) = node.local {\n            n\n", "        let val: u64 = if let Local::Exact(n) = node.local {\n            cmp::min(n, 999_999)\n")
i("C20", MAIN, "                Max::LowerBound(n) => n,\n            }\n        )?;", "                Max::LowerBound(n) => cmp::max(n, nodes[0].max.map_or(0, |max| if let Max::Exact(n) = max { n } else { 0 })),\n            }\n        )?;")
i("C20", MAIN, "        let mut escaper = Escaper::new(&mut stdout);\n        writeln!(escaper, \"{}\", name).ok();", "        let mut escaper = Escaper::new(&mut stdout);\n        writeln!(escaper, \"{:.200}\", name).ok();")
i("C21", MAIN, "                        if key_sig.loosely_equal(sig) {\n                            has_callees = true;", "                        if !has_callees && key_sig.loosely_equal(sig) {\n                            has_callees = true;")
i("C21", MAIN, "                            indirect.callers.insert(caller);", "                            if indirect.callers.len() < 3 {\n                                indirect.callers.insert(caller);\n                            }")
i("C22", MAIN, "        } else if !is_outlined_function(canonical_name) {", "        } else if !is_outlined_function(canonical_name) && stack.is_none() {")
i("C22", MAIN, "        } else if !is_outlined_function(canonical_name) {", "        } else if !names.iter().any(|name| is_outlined_function(name)) {")
i("C22", MAIN, "                if !defined.contains(canonical_name) && indirect {", "                if defines.get(canonical_name).is_none() && indirect {")
i("C25", MAIN, "                        if !llvm_seen.contains(func) {\n                            llvm_seen.insert(func);", "                        if llvm_seen.insert(func.rsplitn(2, '.').last()) {")
i("C25", MAIN, "                    if fns_containing_asm.insert(*canonical_name) {", "                    if fns_containing_asm.insert(*canonical_name) && !expr.is_empty() {")
i("C25", MAIN, "                if g[caller].local == Local::Unknown {", "                if g[caller].local == Local::Unknown && !fns_containing_asm.contains(canonical_name) {")
i("C23", THUMB, "                if let Some(tag) = tags[needle..].iter().find(|tag| tag.1 == Tag::Thumb) {", "                if let Some(tag) = tags[needle..].iter().take(4).find(|tag| tag.1 == Tag::Thumb) {")
i("C23", THUMB, "        if let Ok(needle) = tags.binary_search_by(|(addr, _)| addr.cmp(&start)) {", "        if let Some(needle) = tags.iter().position(|(addr, _)| *addr == start) {")
i("C23", THUMB, "        } else if matches(first, \"0b1101_1110_xxxxxxxx\") {", "        } else if matches(first, \"0b1101_1110_1xxxxxxx\") {")
i("C08", THUMB, "                    let m = (second[1] >> 6) & 1;", "                    let m = (second[1] >> 7) & 1;")
i("C08", THUMB, "((u16::from(second[1]) & 0b0001_1111) << 8)", "((u16::from(second[1]) & 0b0000_1111) << 8)")
i("C08", THUMB, "                // A7.7.185      TBB, TBH - T1\n                // this is a `match`; give up the stack usage analysis\n                stack = None;", "                // A7.7.185      TBB, TBH - T1\n                if second[0] & 0x10 == 0 || stack == Some(0) {\n                    stack = None;\n                }")
i("C06", THUMB, "                if cond >> 1 == 0b111 {", "                if cond >> 2 == 0b11 {")
i("C06", THUMB, "                let mut imm32 = sign_extend(imm21, 21);", "                let mut imm32 = sign_extend(imm21 & !(1 << 18) | ((imm21 >> 1) & (1 << 18)), 21);")


def attempt(k):
    prop, f, old, new, nth = IDEAS[k]
    work = "/tmp/ideas-%d-%d" % (os.getpid(), k)
    subprocess.run(["cp", "-a", os.environ.get("MUT_REPO", "/repo"), work], check=True)
    try:
        p = os.path.join(work, f)
        t = open(p).read()
        if t.count(old) != 1:
            return k, "BAD: %d matches" % t.count(old), 0
        open(p, "w").write(t.replace(old, new))
        b = subprocess.run("cargo build --offline 2>&1 | tail -30", shell=True, cwd=work, stdout=subprocess.PIPE, text=True)
        if "error" in b.stdout and "could not compile" in b.stdout:
            return k, "BAD: " + b.stdout[-600:], 0
        t0 = time.time()
        r = subprocess.run(["python3", "check.py", prop, "quick"], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=dict(os.environ, CCS_REPO=work, VERIF_SEED="1", VERIF_TIER="quick", MBV_FIRST="1"))
        hit = r.returncode == 1 and "VIOLATION property=%s " % prop in r.stdout
        return k, "caught" if hit else "MISSED rc=%d %s" % (r.returncode, r.stdout[-300:] if r.returncode else ""), time.time() - t0
    finally:
        subprocess.run(["rm", "-rf", work])


def main():
    jobs, lo, hi, prop = 2, 0, len(IDEAS), None
    for a in sys.argv[1:]:
        if a.startswith("-j"):
            jobs = int(a[2:])
        elif a.startswith("C"):
            prop = a
        else:
            lo, _, h = a.partition("-")
            lo, hi = int(lo), int(h) + 1 if h else int(lo) + 1
    todo = [k for k in range(lo, hi) if not prop or IDEAS[k][0] == prop]
    with ThreadPoolExecutor(jobs) as ex:
        for k, res, dt in ex.map(attempt, todo):
            print("%3d %s %-60r %.0fs %s" % (k, IDEAS[k][0], IDEAS[k][3][:60], dt, res), flush=True)


main()
