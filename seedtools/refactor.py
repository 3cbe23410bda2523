#!/usr/bin/env python3
"""Behaviour-preserving edits of /repo, to see that the checks stay quiet.  refactor.py [NAME...]
Applies each edit to /repo's working tree, runs the checks named, undoes it."""
import subprocess, sys, os, time
Z = "/repo/crates/zserio/src/"
R = {
 "array-helper": ("C06 C08 C13 C07", [(Z + "ztype/array.rs", '''            // Create the packing context, and all child-contexts
            let mut packing_context_node = self.array_trait.create_context();

            // Initialize the contexts, to identify the delta packing sizes
            for element in data {
                self.array_trait
                    .init_context(&mut packing_context_node, element)?;
            }

            // Actually''', '''            let mut packing_context_node = self.prepared_context(data)?;

            // Actually'''), (Z + "ztype/array.rs", '''    pub fn zserio_read_array_length(''', '''    fn prepared_context(
        &self,
        data: &Vec<T>,
    ) -> Result<crate::ztype::array_traits::packing_context_node::PackingContextNode> {
        let mut packing_context_node = self.array_trait.create_context();
        for element in data {
            self.array_trait
                .init_context(&mut packing_context_node, element)?;
        }
        Ok(packing_context_node)
    }

    pub fn zserio_read_array_length(''')]),
 "array-while": ("C07 C11 C13", [(Z + "ztype/array.rs", '''            for index in 0..array_length {
                align_array_element_reader(reader, index, index_offsets)?;
                let mut item = T::default();
                self.array_trait.read(reader, &mut item)?;
                data.push(item);
            }''', '''            let mut index = 0;
            while index < array_length {
                align_array_element_reader(reader, index, index_offsets)?;
                let mut item = T::default();
                self.array_trait.read(reader, &mut item)?;
                data.push(item);
                index += 1;
            }''')]),
 "array-early-return": ("C06 C13", [(Z + "ztype/array.rs", '''        Ok(end_position - bit_position)
    }

    pub fn zserio_bitsize_packed''', '''        let total = end_position - bit_position;
        Ok(total)
    }

    pub fn zserio_bitsize_packed''')]),
 "reader-reorder": ("C05 C07 C11", [(Z + "ztype/extern_type.rs", '''    let num_of_full_bytes = bit_size / 8;
    let remaining_bits = (bit_size % 8) as u8;
''', '''    let remaining_bits = (bit_size % 8) as u8;
    let num_of_full_bytes = bit_size / 8;
''')]),
 "string-uses-read-bytes": ("C05 C07 C11", [(Z + "ztype/string_decode.rs", '''    let str_len = read_varsize(reader)? as usize;

    if reader.remaining() < (str_len as u64 * 8) {
        return Err(ZserioError::IoError(std::io::Error::new(
            ErrorKind::UnexpectedEof,
            "claimed string size is larger than available data",
        )));
    }
    // create a buffer to store the string
    let mut buffer = vec![0_u8; str_len];
    reader.read_u8_slice(&mut buffer)?;
    Ok(''', '''    let str_len = read_varsize(reader)?;
    let buffer = crate::ztype::reader::read_bytes(reader, str_len)?;
    Ok('''), (Z + "ztype/string_decode.rs", '''use std::io::ErrorKind;

''', ''), (Z + "ztype/string_decode.rs", "use crate::error::{Result, ZserioError};", "use crate::error::Result;")]),
 "writer-iterator": ("C05 C04", [(Z + "ztype/writer.rs", '''    for byte in bytes {
        writer.write_u8(*byte, 8)?;
    }
    Ok(())''', '''    bytes.iter().try_for_each(|byte| writer.write_u8(*byte, 8))?;
    Ok(())''')]),
 "writer-index": ("C05 C04", [(Z + "ztype/writer.rs", '''    for byte in bytes {
        writer.write_u8(*byte, 8)?;
    }''', '''    for i in 0..bytes.len() {
        let byte = bytes[i];
        writer.write_u8(byte, 8)?;
    }''')]),
 "delta-helper": ("C08 C09 C06", [(Z + "ztype/array_traits/delta_context.rs", '''            self.previous_element = array_trait.to_u64(element);
        }
        Ok(())
    }
''', '''            self.previous_element = array_trait.to_u64(element);
        }
        Ok(())
    }

    fn bits_per_delta(&self) -> u64 {
        if self.max_bit_number > 0 {
            self.max_bit_number as u64 + 1
        } else {
            0
        }
    }
'''), (Z + "ztype/array_traits/delta_context.rs", '''        let mut delta_bit_size = self.max_bit_number as u64;
        if delta_bit_size > 0 {
            delta_bit_size += 1;
        }
''', '''        let delta_bit_size = self.bits_per_delta();
'''), (Z + "ztype/array_traits/delta_context.rs", '''        if self.max_bit_number > 0 {
            return Ok(self.max_bit_number as u64 + 1);
        }
        Ok(0)''', '''        Ok(self.bits_per_delta())''')]),
 "delta-match": ("C08 C09", [(Z + "ztype/array_traits/delta_context.rs", '''            let delta = array_trait.abs_delta(self.previous_element, array_trait.to_u64(element));
            let max_bit_number = bit_length(delta);
            if max_bit_number > self.max_bit_number {
                self.max_bit_number = max_bit_number;
                if self.max_bit_number > MAX_BIT_NUMBER_LIMIT {
                    self.is_packed = false;
                }
            }
            self.previous_element = array_trait.to_u64(element);''', '''            let current = array_trait.to_u64(element);
            let needed = bit_length(array_trait.abs_delta(self.previous_element, current));
            if needed > self.max_bit_number {
                self.is_packed = needed <= MAX_BIT_NUMBER_LIMIT;
                self.max_bit_number = needed;
            }
            self.previous_element = current;''')]),
 "align-branchless": ("C10 C13 C06", [(Z + "ztype/array.rs", '''    let mut end_position = bit_position;
    if index_offsets.is_some() {
        end_position += align_bitsize(end_position, 8);
    }
    end_position
''', '''    match index_offsets {
        Some(_) => bit_position + align_bitsize(bit_position, 8),
        None => bit_position,
    }
''')]),
 "lib-to-bytes": ("C14", None),
}

def run(name):
    props, edits = R[name]
    if edits is None:
        return
    try:
        for f, a, b in edits:
            s = open(f).read()
            assert a in s, (name, f, a)
            open(f, "w").write(s.replace(a, b, 1))
        r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; cd /repo && CARGO_NET_OFFLINE=true cargo build --offline -p zserio --target-dir /tmp/rf-target 2>&1 | grep -E '^error' -A6"], capture_output=True, text=True)
        if r.stdout.strip():
            print(name, "DOES NOT BUILD", r.stdout); return
        for p in props.split():
            t = time.time()
            r = subprocess.run(["python3", "/verif/bin/check.py", p], cwd="/verif", capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            print("%-24s %s rc=%d %3.0fs %s" % (name, p, r.returncode, time.time() - t, r.stdout.strip()[:600].replace("\n", " | ") + r.stderr[-300:]), flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])

for n in sys.argv[1:] or R:
    run(n)
