(* Operations on byte sequences of gigabytes; see Bulk.tla *)
open Cryptokit
external big_c : int -> int -> bytes -> bytes = "drv_big"
external bigfree : bytes -> unit = "drv_bigfree"
let big kind n fill =
  let b = big_c kind n fill in
  if Obj.is_int (Obj.repr b) then failwith "DRV: no memory for a large buffer" else b
let mb = 1 lsl 20
let patmb seed = Bytes.init mb (fun i -> Char.chr ((i * 131 + (i / 256) * 17 + seed) land 255))
let pattern seed n = big 1 n (patmb seed)
let with_big b f = Fun.protect ~finally:(fun () -> bigfree b) (fun () -> f b)
let win = 200 and guard = 16
(* a destination of n bytes, followed by guard bytes; the result is its end *)
let with_dst ?(zero=false) n f =
  with_big (big 1 (n + guard) (Bytes.make mb (if zero then '\000' else '\238'))) (fun d ->
    if zero then Bytes.fill d n guard '\238';
    f d;
    ("ok", 0, Bytes.sub_string d (n - win) (win + guard)))

(* ordinary operations at large offsets: sparse buffers, one as source, one as destination *)
let sparse = [| None; None |]
let sparse_len = 9 lsl 29 + 77777
let sparse_get i =
  match sparse.(i) with
  | Some b -> b
  | None -> let b = big 0 sparse_len Bytes.empty in sparse.(i) <- Some b; b
(* place s at offset [base] of sparse buffer i *)
let base m = m * mb + 3
let place i m s = let b = sparse_get i in Bytes.blit_string s 0 b (base m) (String.length s); b
let window i m n = Bytes.sub_string (sparse_get i) (base m) n
let clear i m n = Bytes.fill (sparse_get i) (base m) n '\000'

let exec ~(int : string -> int) ~into ~(str : string -> string) ~has ~(tag : string -> string)
         ~(hash : unit -> hash) ~getT ~(getS : unit -> Stream.stream_cipher) ~(getR : unit -> Random.rng) op =
  let seed = into "seed" 0 in
  match op with
  | "bighash" ->
      let h = hash () in
      let parts = List.map int_of_string (String.split_on_char ',' (tag "parts")) in
      let m = List.fold_left max 0 parts in
      with_big (pattern seed (m + 65536)) (fun b ->
        let pos = ref 0 in
        List.iter (fun k -> h#add_substring b (!pos land 65535) k; pos := !pos + k) parts;
        ("ok", 0, h#result))
  | "bigstr" ->
      let s = getS () and n = int "N" in
      with_big (pattern seed n) (fun src -> with_dst n (fun d -> s#transform src 0 d 0 n))
  | "bigrnd" ->
      let r = getR () and n = int "N" in
      with_dst n (fun d -> r#random_bytes d 0 n)
  | "bigxor" ->
      let n = int "N" in
      with_big (pattern seed n) (fun src -> with_dst ~zero:true n (fun d ->
        if tag "m" = "s" then xor_string (Bytes.unsafe_to_string src) 0 d 0 n else xor_bytes src 0 d 0 n))
  | "bigeq" ->
      let n = int "N" and pos = int "pos" in
      with_big (big 0 n Bytes.empty) (fun x -> with_big (big 0 (n + into "more" 0) Bytes.empty) (fun y ->
        if pos >= 0 then Bytes.set y pos '\001';
        let r = if tag "m" = "s" then string_equal (Bytes.unsafe_to_string x) (Bytes.unsafe_to_string y)
                else bytes_equal x y in
        ("ok", (if r then 1 else 0), "")))
  | "bigaead" ->
      let n = int "N" and hn = int "H" in
      let key = str "key" and iv = str "iv" in
      let dir = if tag "dir" = "enc" then AEAD.Encrypt else AEAD.Decrypt in
      let mk header = match tag "cls" with
        | "gcm" -> AEAD.aes_gcm ?header ~iv key dir | _ -> AEAD.chacha20_poly1305 ?header ~iv key dir in
      let a = if hn = 0 then mk None
        else with_big (pattern seed hn) (fun h -> mk (Some (Bytes.unsafe_to_string h))) in
      let chunk = into "chunk" (4 * mb) in
      let last = Buffer.create 1000 in
      let drain () =
        let (b, o, l) = a#get_substring in
        let k = min l 64 in
        if l >= 64 then Buffer.clear last;
        Buffer.add_subbytes last b (o + l - k) k in
      with_big (pattern seed (chunk + 65536)) (fun p ->
        let pos = ref 0 in
        while !pos < n do
          let k = min chunk (n - !pos) in
          a#put_substring p (!pos land 65535) k; pos := !pos + k; drain ()
        done);
      let t = a#finish_and_get_tag in
      drain ();
      let l = Buffer.length last in
      ("ok", 0, t ^ Buffer.sub last (max 0 (l - 64)) (min l 64))
  | "bigz" ->
      let n = int "N" and hdr = into "hdr" 1 = 1 in
      let chunk = into "chunk" n and uchunk = into "uchunk" 65536 and fl = into "fl" 0 = 1 in
      let z = Zlib.compress ~level:(int "level") ~write_zlib_header:hdr () in
      with_big (pattern seed n) (fun p ->
        let pos = ref 0 in
        while !pos < n do
          let k = min chunk (n - !pos) in
          z#put_substring p !pos k; pos := !pos + k;
          if fl then z#flush
        done);
      z#finish;
      let (b, o, l) = z#get_substring in
      let u = Zlib.uncompress ~expect_zlib_header:hdr () in
      let p = Bytes.cat (patmb seed) (patmb seed) in
      let total = ref 0 and good = ref true in
      let check () =
        let (d, o, l) = u#get_substring in
        let q = ref 0 in
        while !q < l do
          let k = min mb (l - !q) in
          if not (Bytes.sub d (o + !q) k = Bytes.sub p (!total land (mb - 1)) k) then good := false;
          q := !q + k; total := !total + k
        done in
      let pos = ref 0 in
      while !pos < l do
        let k = min uchunk (l - !pos) in
        u#put_substring b (o + !pos) k; check (); pos := !pos + k
      done;
      u#finish; check ();
      ("ok", (if !good && !total = n then 1 else 0), if hdr then Bytes.sub_string b (o + l - 4) 4 else "")
  | "bigout" ->
      let t : transform = getT () in
      let n = int "N" in
      let parts = into "parts" 1 in
      with_big (pattern seed (n + 65536)) (fun p ->
        let pos = ref 0 in
        for i = 1 to parts do
          let k = if i = parts then n - !pos else n / parts in
          t#put_substring p (!pos land 65535) k; pos := !pos + k
        done);
      t#finish;
      let av = t#available_output in
      let (b, o, l) = t#get_substring in
      let ws = List.map int_of_string (String.split_on_char ',' (tag "at")) in
      ("ok", (if l = av then l else -1), String.concat "" (List.map (fun w -> Bytes.sub_string b (o + w) 64) ws))
  | _ -> ("DRV:unknown:" ^ op, 0, "")
