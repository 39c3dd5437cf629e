PROP="C07"
NEEDS="a BLAKE3 message of several KiB fed in pieces, one piece completing a 1 KiB chunk exactly at the end of a call, then a call giving one more byte"
BREAKS="pending subtrees are not merged before the last partial chunk, so the tree has the wrong shape"
EDITS=[("src/blake3.c","""    chunk_state_update(&self->chunk, input_bytes, input_len);
    hasher_merge_cv_stack(self, self->chunk.chunk_counter);
  }
}""","""    chunk_state_update(&self->chunk, input_bytes, input_len);
    if (input_len > 1 || input_bytes != input || self->chunk.chunk_counter < 4)
      hasher_merge_cv_stack(self, self->chunk.chunk_counter);
  }
}""")]
DEMO='''open Cryptokit
let () =
  let m = String.init 8193 (fun i -> Char.chr (i * i / 3 land 255)) in
  let h = Hash.blake3 256 in
  h#add_substring (Bytes.of_string m) 0 8000; h#add_substring (Bytes.of_string m) 8000 192; h#add_substring (Bytes.of_string m) 8192 1;
  let h2 = Hash.blake3 256 in
  h2#add_substring (Bytes.of_string m) 0 8192; h2#add_substring (Bytes.of_string m) 8192 1;
  exit (if h#result = h2#result then 0 else 1)
'''
