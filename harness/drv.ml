(* Conformance driver: executes operation scripts against the real library
   through its public interface and prints one result line per operation.

   Input  (stdin): one operation per line,  "op k=v k=v ...";
                   byte strings are hex prefixed with 'x', integers decimal.
                   "trace N" starts a new trace (forgets all objects).
   Output (stdout): "s=<status> n=<int> b=x<hex>" per operation.
   Every line is flushed so that a crash or a hang can be attributed. *)

open Cryptokit

external gc_arm : int -> unit = "drv_gc_arm"
external dirt : int -> unit = "drv_dirt"
external hwsim : bool -> int -> int -> int -> unit = "drv_hwsim"
external entropy : int -> int = "drv_entropy"
(* [gc_arm k]: leave exactly k words free in the minor heap *)

type obj =
  | T of transform
  | H of hash
  | A of authenticated_transform
  | B of Block.block_cipher
  | S of Stream.stream_cipher
  | R of Random.rng
  | RSA of RSA.private_key * RSA.public_key
  | Pai of Paillier.private_key * Paillier.public_key
  | DHP of DH.parameters
  | DHS of DH.private_secret

let objs : (int, obj) Hashtbl.t = Hashtbl.create 64
let wipes : (int, int ref) Hashtbl.t = Hashtbl.create 16

(* ---- parsing ---- *)
let unhex s =
  (* "x0a1b.." *)
  let n = (String.length s - 1) / 2 in
  let v c = match c with '0'..'9' -> Char.code c - 48 | _ -> Char.code c - 87 in
  String.init n (fun i -> Char.chr (v s.[1+2*i] * 16 + v s.[2+2*i]))
let hexd = "0123456789abcdef"
let hex s =
  let b = Bytes.create (2 * String.length s) in
  String.iteri (fun i c ->
    Bytes.unsafe_set b (2*i) hexd.[Char.code c lsr 4];
    Bytes.unsafe_set b (2*i+1) hexd.[Char.code c land 15]) s;
  Bytes.unsafe_to_string b

exception Missing of string
type args = (string * string) list
let raw (a : args) k = try List.assoc k a with Not_found -> raise (Missing k)
let has a k = List.mem_assoc k a
let int a k = int_of_string (raw a k)
let into a k d = if has a k then int a k else d
(* every byte string given to an operation is a fresh string; it is recorded so that
   unwanted modifications are noticed, and so that it can be scribbled over afterwards *)
let fresh : (string * string) list ref = ref []      (* string, its hex *)
let kept : (string * string) list ref = ref []       (* those given to constructors *)
(* "@k:a:b:pos:mask:app": bytes a..b-1 of the result of operation k of this trace (b < 0:
   to the end), with [mask] xored at [pos] (if in range), followed by the hex bytes app *)
let results : string array ref = ref (Array.make 64 "")
let nresults = ref 0
let deref h =
  match String.split_on_char ':' (String.sub h 1 (String.length h - 1)) with
  | [k; x; y; pos; mask; app; fld] ->
      let i = int_of_string in
      let r = if i k < !nresults then !results.(i k) else "" in
      (* fld >= 0: that component of a packed result (see [pack]) *)
      let rec field r f =
        if String.length r < 2 then "" else
        let n = Char.code r.[0] * 256 + Char.code r.[1] in
        if String.length r < n + 2 then "" else
        if f = 0 then String.sub r 2 n
        else field (String.sub r (n + 2) (String.length r - n - 2)) (f - 1) in
      let r = if i fld < 0 then r else field r (i fld) in
      let n = String.length r in
      let x = min (i x) n in
      let y = if i y < 0 then n else max x (min (i y) n) in
      let b = Bytes.of_string (String.sub r x (y - x)) in
      let pos = i pos in
      if pos >= 0 && pos < Bytes.length b then
        Bytes.set b pos (Char.chr (Char.code (Bytes.get b pos) lxor i mask));
      Bytes.to_string b ^ unhex ("x" ^ app)
  | _ -> failwith "ref"
let slots : (string * int, bytes) Hashtbl.t = Hashtbl.create 7
let str a k =
  let h = raw a k in
  let h = if h <> "" && h.[0] = '@' then "x" ^ hex (deref h) else h in
  let s = unhex h in
  let s =
    if not (has a "slot") then s
    else begin
      (* the caller's own buffer, filled anew for each object *)
      let id = (k, String.length s) in
      let b = match Hashtbl.find_opt slots id with
        | Some b -> b
        | None -> let b = Bytes.create (String.length s) in Hashtbl.replace slots id b; Gc.minor (); b in
      Bytes.blit_string s 0 b 0 (String.length s); Bytes.unsafe_to_string b
    end in
  fresh := (s, h) :: !fresh; s
let stro a k = if has a k then Some (str a k) else None
let tag a k = raw a k
let tago a k d = if has a k then raw a k else d

(* ---- results ---- *)
let ok = ("ok", 0, "")
let num n = ("ok", n, "")
let bytes_ s = ("ok", 0, s)

let err_name = function
  | Wrong_key_size -> "Wrong_key_size" | Wrong_IV_size -> "Wrong_IV_size"
  | Wrong_data_length -> "Wrong_data_length" | Bad_padding -> "Bad_padding"
  | Output_buffer_overflow -> "Output_buffer_overflow"
  | Incompatible_block_size -> "Incompatible_block_size"
  | Number_too_long -> "Number_too_long" | Seed_too_short -> "Seed_too_short"
  | Message_too_long -> "Message_too_long" | Bad_encoding -> "Bad_encoding"
  | Compression_error (f,m) ->
      (* the function and message must be proper strings *)
      let printable s = String.length s < 200 && (try String.iter (fun c -> if c < ' ' || c > '~' then raise Exit) s; true with Exit -> false) in
      if printable f && printable m && Obj.tag (Obj.repr m) = Obj.string_tag then "Compression_error" else "Compression_error(garbage)"
  | No_entropy_source -> "No_entropy_source"
  | Entropy_source_closed -> "Entropy_source_closed"
  | Compression_not_supported -> "Compression_not_supported"
let exn_name = function
  | Error e -> "E:" ^ err_name e
  | End_of_file -> "X:End_of_file"
  | Invalid_argument _ -> "X:Invalid_argument"
  | Assert_failure _ -> "X:Assert_failure"
  | Not_found -> "X:Not_found"
  | Failure _ -> "X:Failure"
  | Out_of_memory -> "X:Out_of_memory"
  | Stack_overflow -> "X:Stack_overflow"
  | Division_by_zero -> "X:Division_by_zero"
  | Unix.Unix_error (e, _, _) -> "X:Unix"
  | e -> "X:other"

(* ---- user-supplied components, exercising the compositional interface ---- *)

(* A toy block cipher of any block size:
   enc: out[i] = 5 * in[(i+1) mod bs] + key[i mod kl] + i   (mod 256) *)
class toy_enc bs key : Block.block_cipher = object
  val mutable k = Bytes.to_string (Bytes.of_string key)
  method blocksize = bs
  method transform src so dst d0 =
    if so < 0 || so > Bytes.length src - bs || d0 < 0 || d0 > Bytes.length dst - bs
    then invalid_arg "toy";
    let t = Bytes.sub src so bs in
    for i = 0 to bs - 1 do
      let x = Char.code (Bytes.get t ((i + 1) mod bs)) in
      Bytes.set dst (d0 + i)
        (Char.chr ((5 * x + Char.code k.[i mod String.length k] + i) land 255))
    done
  method wipe = k <- String.make (String.length k) '\000'
end
class toy_dec bs key : Block.block_cipher = object
  val mutable k = Bytes.to_string (Bytes.of_string key)
  method blocksize = bs
  method transform src so dst d0 =
    if so < 0 || so > Bytes.length src - bs || d0 < 0 || d0 > Bytes.length dst - bs
    then invalid_arg "toy";
    let t = Bytes.sub src so bs in
    for i = 0 to bs - 1 do
      let y = (Char.code (Bytes.get t i) - Char.code k.[i mod String.length k] - i) land 255 in
      (* 5 * 205 = 1 mod 256 *)
      Bytes.set dst (d0 + (i + 1) mod bs) (Char.chr ((205 * y) land 255))
    done
  method wipe = k <- String.make (String.length k) '\000'
end
(* A toy stream cipher: byte at position p is xored with key[p mod kl] + 3p *)
class toy_stream key : Stream.stream_cipher = object
  val mutable k = Bytes.to_string (Bytes.of_string key)
  val mutable pos = 0
  method transform src so dst d0 len =
    if len < 0 || so < 0 || so > Bytes.length src - len || d0 < 0 || d0 > Bytes.length dst - len
    then invalid_arg "toys";
    for i = 0 to len - 1 do
      let ks = (Char.code k.[pos mod String.length k] + 3 * pos) land 255 in
      Bytes.set dst (d0 + i) (Char.chr (Char.code (Bytes.get src (so + i)) lxor ks));
      pos <- pos + 1
    done
  method wipe = k <- String.make (String.length k) '\000'; pos <- 0
end
(* A toy padding scheme: 0x01 then 0x02 ... (distinct from the library's) *)
class toy_pad : Padding.scheme = object
  method pad buf used =
    for i = used to Bytes.length buf - 1 do
      Bytes.set buf i (if i = used then '\001' else '\002') done
  method strip buf =
    let rec go i = if i < 0 then raise (Error Bad_padding) else
      match Bytes.get buf i with '\001' -> i | '\002' -> go (i-1)
      | _ -> raise (Error Bad_padding) in
    go (Bytes.length buf - 1)
end
(* Spies: forward everything, count wipes *)
class spy_t id (t : transform) : transform = object
  method input_block_size = t#input_block_size
  method output_block_size = t#output_block_size
  method put_substring b o l = t#put_substring b o l
  method put_string s = t#put_string s
  method put_char c = t#put_char c
  method put_byte b = t#put_byte b
  method finish = t#finish
  method flush = t#flush
  method available_output = t#available_output
  method get_string = t#get_string
  method get_substring = t#get_substring
  method get_char = t#get_char
  method get_byte = t#get_byte
  method wipe = incr (Hashtbl.find wipes id); t#wipe
end
class spy_h id (t : hash) : hash = object
  method hash_size = t#hash_size
  method add_substring b o l = t#add_substring b o l
  method add_string s = t#add_string s
  method add_char c = t#add_char c
  method add_byte b = t#add_byte b
  method result = t#result
  method wipe = incr (Hashtbl.find wipes id); t#wipe
end
class spy_a id (t : authenticated_transform) : authenticated_transform = object
  method input_block_size = t#input_block_size
  method output_block_size = t#output_block_size
  method tag_size = t#tag_size
  method put_substring b o l = t#put_substring b o l
  method put_string s = t#put_string s
  method put_char c = t#put_char c
  method put_byte b = t#put_byte b
  method finish_and_get_tag = t#finish_and_get_tag
  method available_output = t#available_output
  method get_string = t#get_string
  method get_substring = t#get_substring
  method get_char = t#get_char
  method get_byte = t#get_byte
  method wipe = incr (Hashtbl.find wipes id); t#wipe
end
class spy_b id (t : Block.block_cipher) : Block.block_cipher = object
  method blocksize = t#blocksize
  method transform a b c d = t#transform a b c d
  method wipe = incr (Hashtbl.find wipes id); t#wipe
end

(* rng replaying a given byte string, then failing *)
class replay_rng data : Random.rng = object
  val mutable pos = 0
  method random_bytes buf ofs len =
    if pos + len > String.length data then failwith "replay exhausted";
    Bytes.blit_string data pos buf ofs len; pos <- pos + len
  method wipe = ()
end

let getT o = match Hashtbl.find objs o with T t -> t | _ -> failwith "not T"
let getH o = match Hashtbl.find objs o with H t -> t | _ -> failwith "not H"
let getA o = match Hashtbl.find objs o with A t -> t | _ -> failwith "not A"
let getB o = match Hashtbl.find objs o with B t -> t | _ -> failwith "not B"
let getS o = match Hashtbl.find objs o with S t -> t | _ -> failwith "not S"
let getR o = match Hashtbl.find objs o with R t -> t | _ -> failwith "not R"

let pad_of = function
  | "length" -> Some Padding.length | "8000" -> Some Padding._8000
  | "toy" -> Some (new toy_pad) | "none" -> None
  | s -> failwith ("pad " ^ s)
let mode_of a =
  match tag a "mode" with
  | "default" -> None
  | "ecb" -> Some (Cipher.ECB) | "cbc" -> Some Cipher.CBC
  | "cfb" -> Some (Cipher.CFB (int a "n")) | "ofb" -> Some (Cipher.OFB (int a "n"))
  | "ctr" -> Some Cipher.CTR | "ctrn" -> Some (Cipher.CTR_N (int a "n"))
  | s -> failwith ("mode " ^ s)
let dir_of a = if tago a "dir" "enc" = "enc" then Cipher.Encrypt else Cipher.Decrypt
let adir_of a = if tago a "dir" "enc" = "enc" then AEAD.Encrypt else AEAD.Decrypt

(* All argument strings are freshly allocated (young) just before use *)
let prim a : Block.block_cipher =
  let enc = tago a "pdir" (tago a "dir" "enc") = "enc" in
  let key = str a "key" in
  if has a "gc" then gc_arm (int a "gc");
  match tag a "alg" with
  | "aes" -> if enc then new Block.aes_encrypt key else new Block.aes_decrypt key
  | "des" -> if enc then new Block.des_encrypt key else new Block.des_decrypt key
  | "3des" -> if enc then new Block.triple_des_encrypt key else new Block.triple_des_decrypt key
  | "blowfish" -> if enc then new Block.blowfish_encrypt key else new Block.blowfish_decrypt key
  | "toy" -> if enc then new toy_enc (int a "bs") key else new toy_dec (int a "bs") key
  | "obj" -> getB (int a "pa")
  | s -> failwith ("alg " ^ s)
let chained a (c : Block.block_cipher) : Block.block_cipher =
  let iv = stro a "iv" in
  let enc = tago a "dir" "enc" = "enc" in
  match tag a "mode" with
  | "ecb" -> c
  | "cbc" -> if enc then new Block.cbc_encrypt ?iv c else new Block.cbc_decrypt ?iv c
  | "cfb" -> if enc then new Block.cfb_encrypt ?iv (int a "n") c
             else new Block.cfb_decrypt ?iv (int a "n") c
  | "ofb" -> new Block.ofb ?iv (int a "n") c
  | "ctr" -> new Block.ctr ?iv c
  | "ctrn" -> new Block.ctr ?iv ~inc:(int a "n") c
  | s -> failwith ("mode " ^ s)

let ctr_of a =
  match stro a "ctr8" with
  | None -> None
  | Some s -> Some (String.get_int64_be s 0)

let hash_of a : hash =
  let key = match stro a "key" with Some k -> k | None -> "" in
  let iv = stro a "iv" in
  let pad = pad_of (tago a "pad" "none") in
  let sz = into a "sz" 0 in
  if has a "gc" then gc_arm (int a "gc");
  match tag a "alg" with
  | "sha1" -> Hash.sha1 () | "sha224" -> Hash.sha224 () | "sha256" -> Hash.sha256 ()
  | "sha384" -> Hash.sha384 () | "sha512" -> Hash.sha512 ()
  | "sha2" -> Hash.sha2 sz | "sha3" -> Hash.sha3 sz | "keccak" -> Hash.keccak sz
  | "ripemd160" -> Hash.ripemd160 () | "md5" -> Hash.md5 ()
  | "blake2b" -> Hash.blake2b sz | "blake2b512" -> Hash.blake2b512 ()
  | "blake2s" -> Hash.blake2s sz | "blake2s256" -> Hash.blake2s256 ()
  | "blake3" -> Hash.blake3 sz | "blake3_256" -> Hash.blake3_256 ()
  | "hmac_sha1" -> MAC.hmac_sha1 key | "hmac_sha256" -> MAC.hmac_sha256 key
  | "hmac_sha384" -> MAC.hmac_sha384 key | "hmac_sha512" -> MAC.hmac_sha512 key
  | "hmac_ripemd160" -> MAC.hmac_ripemd160 key | "hmac_md5" -> MAC.hmac_md5 key
  | "mac_blake2b" -> MAC.blake2b sz key | "mac_blake2b512" -> MAC.blake2b512 key
  | "mac_blake2s" -> MAC.blake2s sz key | "mac_blake2s256" -> MAC.blake2s256 key
  | "mac_blake3" -> MAC.blake3 sz key | "mac_blake3_256" -> MAC.blake3_256 key
  | "aes_cmac" -> MAC.aes_cmac ?iv key
  | "mac_aes" -> MAC.aes ?iv ?pad key | "mac_des" -> MAC.des ?iv ?pad key
  | "mac_3des" -> MAC.triple_des ?iv ?pad key
  | "mac_des3" -> MAC.des_final_triple_des ?iv ?pad key
  | "mac_toy" -> new Block.mac ?iv ?pad (new toy_enc (int a "bs") key)
  | "mac_toy3" -> new Block.mac_final_triple ?iv ?pad
       (new toy_enc (int a "bs") key) (new toy_dec (into a "bs2" (int a "bs")) key)
       (new toy_enc (into a "bs3" (int a "bs")) key)
  | "siphash" -> MAC.siphash key | "siphash128" -> MAC.siphash128 key
  | "mac_obj" -> new Block.mac ?iv ?pad (getB (int a "pa"))
  | "mac_obj3" -> new Block.mac_final_triple ?iv ?pad (getB (int a "pa")) (getB (int a "pb")) (getB (int a "pc"))
  | s -> failwith ("hash " ^ s)

let rng_of a : Random.rng =
  let arm () = if has a "gc" then gc_arm (int a "gc") in
  match tag a "kind" with
  | "chacha" -> let s = str a "seed" in arm (); Random.pseudo_rng s
  | "aesctr" -> let s = str a "seed" in arm (); Random.pseudo_rng_aes_ctr s
  | "device" -> Random.device_rng (Drvx.device_file (str a "data") (tago a "chunks" ""))
  | "devpath" -> Random.device_rng (str a "path")
  | "system" -> Random.system_rng ()
  | "hardware" -> Random.hardware_rng ()
  | "hwsim" ->
      hwsim (int a "cpu" = 1) (match raw a "avail" with "good" -> 0 | "dead" -> 1 | _ -> 2) (-1) (int a "flaky");
      let r = (try Random.hardware_rng () with x -> hwsim true 0 (-1) 0; raise x) in
      hwsim true 0 (int a "k") (int a "flaky"); r
  | "secure" -> Random.secure_rng
  | "replay" -> new replay_rng (str a "data")
  | s -> failwith ("rng " ^ s)

let newobj a : obj =
  match tag a "cls" with
  | "cipher" ->
      let pad = pad_of (tago a "pad" "none") and iv = stro a "iv" in
      let mode = mode_of a and key = str a "key" and dir = dir_of a in
      if has a "gc" then gc_arm (int a "gc");
      T (match tag a "alg" with
         | "aes" -> Cipher.aes ?mode ?pad ?iv key dir
         | "des" -> Cipher.des ?mode ?pad ?iv key dir
         | "3des" -> Cipher.triple_des ?mode ?pad ?iv key dir
         | "blowfish" -> Cipher.blowfish ?mode ?pad ?iv key dir
         | s -> failwith ("cipher " ^ s))
  | "bcipher" ->
      let c = chained a (prim a) in
      T (match tago a "pad" "none" with
         | "none" -> new Block.cipher c
         | p -> let Some p = pad_of p [@@warning "-8"] in
           if tago a "dir" "enc" = "enc" then new Block.cipher_padded_encrypt p c
           else new Block.cipher_padded_decrypt p c)
  | "block" -> B (chained a (prim a))
  | "chacha20" ->
      let key = str a "key" and iv = stro a "iv" and ctr = ctr_of a in
      if has a "gc" then gc_arm (int a "gc");
      T (Cipher.chacha20 ?iv ?ctr key (dir_of a))
  | "arcfour" ->
      let key = str a "key" in
      if has a "gc" then gc_arm (int a "gc");
      T (Cipher.arcfour key (dir_of a))
  | "toystream" -> T (new Stream.cipher (new toy_stream (str a "key")))
  | "s_chacha20" ->
      let key = str a "key" and iv = stro a "iv" and ctr = ctr_of a in
      if has a "gc" then gc_arm (int a "gc");
      S (new Stream.chacha20 ?iv ?ctr key)
  | "s_arcfour" ->
      let key = str a "key" in
      if has a "gc" then gc_arm (int a "gc");
      S (new Stream.arcfour key)
  | "b64enc" -> T (match tag a "v" with
      | "multiline" -> Base64.encode_multiline () | "compact" -> Base64.encode_compact ()
      | _ -> Base64.encode_compact_pad ())
  | "b64dec" -> T (Base64.decode ())
  | "hexenc" -> T (Hexa.encode ())
  | "hexdec" -> T (Hexa.decode ())
  | "zc" ->
      let level = if has a "level" then Some (int a "level") else None in
      let h = if has a "hdr" then Some (int a "hdr" = 1) else None in
      T (Zlib.compress ?level ?write_zlib_header:h ())
  | "zu" ->
      let h = if has a "hdr" then Some (int a "hdr" = 1) else None in
      T (Zlib.uncompress ?expect_zlib_header:h ())
  | "compose" -> T (compose (getT (int a "a")) (getT (int a "b")))
  | "then_hash" -> A (transform_then_hash (getT (int a "a")) (getH (int a "h")))
  | "and_hash" -> A (transform_and_hash (getT (int a "a")) (getH (int a "h")))
  | "gcm" ->
      let key = str a "key" and iv = str a "iv" and header = stro a "hdr" in
      if has a "gc" then gc_arm (int a "gc");
      A (AEAD.aes_gcm ?header ~iv key (adir_of a))
  | "chapoly" ->
      let key = str a "key" and iv = str a "iv" and header = stro a "hdr" in
      if has a "gc" then gc_arm (int a "gc");
      A (AEAD.chacha20_poly1305 ?header ~iv key (adir_of a))
  | "hash" -> H (hash_of a)
  | "rng" -> R (rng_of a)
  | "spy" ->
      let id = int a "o" in
      Hashtbl.replace wipes id (ref 0);
      (match Hashtbl.find objs (int a "a") with
       | T t -> T (new spy_t id t) | H h -> H (new spy_h id h)
       | A x -> A (new spy_a id x) | B b -> B (new spy_b id b)
       | _ -> failwith "spy")
  | s -> failwith ("cls " ^ s)

let junk n seed = String.init n (fun i -> Char.chr ((i * 37 + seed) land 255))

(* put/add of data d through entry point m; returns 1 if the caller's buffer changed *)
let feed a sub s_ c_ b_ =
  let d = str a "d" in
  match tago a "m" "sub" with
  | "sub" when has a "big" ->       (* at a large offset *)
      let m = int a "big" and n = String.length d in
      let buf = Drvbig.place 0 m d in
      Fun.protect ~finally:(fun () -> Drvbig.clear 0 m n) (fun () ->
        sub buf (Drvbig.base m) n;
        num (if Drvbig.window 0 m n = d then 0 else 1))
  | "sub" ->
      let pre = into a "pre" 0 and post = into a "post" 0 in
      let buf = Bytes.of_string (junk pre 11 ^ d ^ junk post 77) in
      let copy = Bytes.copy buf in
      if has a "gc" then gc_arm (int a "gc");
      sub buf pre (String.length d);
      let r = if Bytes.equal buf copy then 0 else 1 in
      (* the buffer may be reused by the caller *)
      Bytes.fill buf 0 (Bytes.length buf) '\xA5';
      num r
  | "str" ->
      let copy = Bytes.to_string (Bytes.of_string d) in
      if has a "gc" then gc_arm (int a "gc");
      s_ d;
      num (if d = copy then 0 else 1)
  | "chr" ->
      String.iter (fun c -> if has a "gc" then gc_arm (int a "gc"); c_ c) d; num 0
  | "byte" ->
      String.iter (fun c -> if has a "gc" then gc_arm (int a "gc"); b_ (Char.code c)) d; num 0
  | s -> failwith ("m " ^ s)

let sub_of (b, o, l) = Bytes.sub_string b o l

let with_files a f =
  let dir = Filename.get_temp_dir_name () in
  let fi = Filename.temp_file ~temp_dir:dir "ckin" ".bin"
  and fo = Filename.temp_file ~temp_dir:dir "ckout" ".bin" in
  Fun.protect ~finally:(fun () -> Sys.remove fi; Sys.remove fo) (fun () ->
    let oc = open_out_bin fi in output_string oc (str a "d"); close_out oc;
    let ic = open_in_bin fi and oc = open_out_bin fo in
    let r = try f ic oc; "ok" with e -> exn_name e in
    let p = pos_in ic in
    close_in ic; close_out oc;
    let ic = open_in_bin fo in
    let n = in_channel_length ic in
    let s = really_input_string ic n in
    close_in ic; (r, p, s))

let i64s n = (* big-endian 8 bytes of an int *)
  let b = Bytes.create 8 in Bytes.set_int64_be b 0 (Int64.of_int n); Bytes.to_string b

(* list of byte strings -> length-prefixed concatenation (2-byte big-endian lengths) *)
let pack l =
  String.concat "" (List.map (fun s ->
    let n = String.length s in
    Printf.sprintf "%c%c%s" (Char.chr (n lsr 8)) (Char.chr (n land 255)) s) l)

let opt_rng a = if has a "rng" then Some (getR (int a "rng")) else None
let rsa_priv a : RSA.private_key =
  let g k = if has a k then str a k else "" in
  { RSA.size = int a "size"; n = g "n"; d = g "d"; p = g "p"; q = g "q";
    dp = g "dp"; dq = g "dq"; qinv = g "qinv" }
let rsa_pub a : RSA.public_key = { RSA.size = int a "size"; n = str a "n"; e = str a "e" }
let pai_priv a : Paillier.private_key =
  { Paillier.size = int a "size"; n = str a "n"; n2 = str a "n2"; p = str a "p";
    q = str a "q"; lambda = str a "lambda"; mu = str a "mu" }
let pai_pub a : Paillier.public_key =
  { Paillier.size = int a "size"; n = str a "n"; n2 = str a "n2"; g = str a "g" }

let obj_of a = match Hashtbl.find objs (int a "o") with
  | T t -> Obj.repr t | H t -> Obj.repr t | A t -> Obj.repr t | B t -> Obj.repr t
  | S t -> Obj.repr t | R t -> Obj.repr t | _ -> Obj.repr 0
(* scripts that inspect memory start with "dirty" *)
let watch a = if !Drvx.inspecting then Drvx.watch (obj_of a)
let exec op a =
  match op with
  | "new" -> Hashtbl.replace objs (int a "o") (newobj a); ok
  | "gc" -> (match tag a "m" with "minor" -> Gc.minor () | "full" -> Gc.full_major () | _ -> Gc.compact ()); ok
  | "drop" -> Hashtbl.remove objs (int a "o"); Gc.full_major (); ok
  | "put" ->
      (match Hashtbl.find objs (int a "o") with
       | T t -> feed a t#put_substring t#put_string t#put_char t#put_byte
       | A t -> feed a t#put_substring t#put_string t#put_char t#put_byte
       | H h -> feed a h#add_substring h#add_string h#add_char h#add_byte
       | _ -> failwith "put")
  | "putraw" ->
      let buf = Bytes.of_string (str a "buf") in
      let f = match Hashtbl.find objs (int a "o") with
        | T t -> t#put_substring | A t -> t#put_substring
        | H h -> h#add_substring | _ -> failwith "putraw" in
      f buf (int a "ofs") (int a "len"); ok
  | "flush" -> if has a "gc" then gc_arm (int a "gc"); (getT (int a "o"))#flush; ok
  | "finish" -> if has a "gc" then gc_arm (int a "gc"); (getT (int a "o"))#finish; ok
  | "tag" -> if has a "gc" then gc_arm (int a "gc"); bytes_ ((getA (int a "o"))#finish_and_get_tag)
  | "tagsize" -> num ((getA (int a "o"))#tag_size)
  | "avail" -> num (match Hashtbl.find objs (int a "o") with
      | T t -> t#available_output | A t -> t#available_output | _ -> failwith "avail")
  | "gets" -> if has a "gc" then gc_arm (int a "gc");
      bytes_ (match Hashtbl.find objs (int a "o") with
      | T t -> t#get_string | A t -> t#get_string | _ -> failwith "gets")
  | "getsub" -> if has a "gc" then gc_arm (int a "gc");
      bytes_ (sub_of (match Hashtbl.find objs (int a "o") with
      | T t -> t#get_substring | A t -> t#get_substring | _ -> failwith "getsub"))
  | "getc" -> num (Char.code (match Hashtbl.find objs (int a "o") with
      | T t -> t#get_char | A t -> t#get_char | _ -> failwith "getc"))
  | "getb" -> num (match Hashtbl.find objs (int a "o") with
      | T t -> t#get_byte | A t -> t#get_byte | _ -> failwith "getb")
  | "getn" -> (* k single-byte reads *)
      let k = int a "k" in
      let g = match Hashtbl.find objs (int a "o") with
        | T t -> (fun () -> t#get_char) | A t -> (fun () -> t#get_char) | _ -> failwith "getn" in
      bytes_ (String.init k (fun _ -> g ()))
  | "ibs" -> num (match Hashtbl.find objs (int a "o") with
      | T t -> t#input_block_size | A t -> t#input_block_size
      | B b -> b#blocksize | _ -> failwith "ibs")
  | "obs" -> num (match Hashtbl.find objs (int a "o") with
      | T t -> t#output_block_size | A t -> t#output_block_size | _ -> failwith "obs")
  | "wipe" ->
      watch a;
      (match Hashtbl.find objs (int a "o") with
       | T t -> t#wipe | H t -> t#wipe | A t -> t#wipe | B t -> t#wipe | S t -> t#wipe
       | R t -> t#wipe | RSA (k, _) -> RSA.wipe_key k | Pai (k, _) -> Paillier.wipe_key k
       | _ -> failwith "wipe"); ok
  | "wiped" -> num !(Hashtbl.find wipes (int a "o"))
  | "result" -> if has a "gc" then gc_arm (int a "gc"); bytes_ ((getH (int a "o"))#result)
  | "hsize" -> num ((getH (int a "o"))#hash_size)
  (* one block through a block cipher object *)
  | ("btr" | "str") when has a "big" ->
      let o = Hashtbl.find objs (int a "o") in
      let m = int a "big" and s = str a "src" in
      let same = tago a "inplace" "0" = "1" in
      let d = if same then s else str a "dst" in
      let m2 = into a "big2" m in
      let src = Drvbig.place 0 m s in
      let j = if same then 0 else 1 in
      let dst = if same then src else Drvbig.place 1 m2 d in
      let m2 = if same then m else m2 in
      let so = Drvbig.base m + int a "sofs" and d0 = Drvbig.base m2 + int a "dofs" in
      (match o with
       | B b -> b#transform src so dst d0
       | S b -> b#transform src so dst d0 (int a "len")
       | _ -> failwith "btr");
      let r = Drvbig.window j m2 (String.length d) in
      let unch = same || Drvbig.window 0 m (String.length s) = s in
      Drvbig.clear 0 m (String.length s); Drvbig.clear j m2 (String.length d);
      ("ok", (if unch then 0 else 1), r)
  | ("xorb" | "xors") when has a "big" ->
      let m = int a "big" and s = str a "src" and d = str a "dst" in
      let m2 = into a "big2" m in
      let src = Drvbig.place 0 m s and dst = Drvbig.place 1 m2 d in
      let so = Drvbig.base m + int a "sofs" and d0 = Drvbig.base m2 + int a "dofs" in
      if op = "xorb" then xor_bytes src so dst d0 (int a "len")
      else xor_string (Bytes.unsafe_to_string src) so dst d0 (int a "len");
      let r = Drvbig.window 1 m2 (String.length d) in
      let unch = Drvbig.window 0 m (String.length s) = s in
      Drvbig.clear 0 m (String.length s); Drvbig.clear 1 m2 (String.length d);
      ("ok", (if unch then 0 else 1), r)
  | "rnd" when has a "big" ->
      let r = getR (int a "o") and m = int a "big" and d = str a "buf" in
      let dst = Drvbig.place 1 m d in
      r#random_bytes dst (Drvbig.base m + int a "ofs") (int a "len");
      let x = Drvbig.window 1 m (String.length d) in
      Drvbig.clear 1 m (String.length d);
      bytes_ x
  | "btr" | "str" ->
      let o = Hashtbl.find objs (int a "o") in
      let src = Bytes.of_string (str a "src") in
      let copy = Bytes.to_string src in
      let same = tago a "inplace" "0" = "1" in
      let dst = if same then src else Bytes.of_string (str a "dst") in
      let so = int a "sofs" and d0 = int a "dofs" in
      if has a "gc" then gc_arm (int a "gc");
      let s = (try (match o with
                    | B b -> b#transform src so dst d0
                    | S b -> b#transform src so dst d0 (int a "len")
                    | _ -> failwith "btr"); "ok"
               with (Missing _ | Failure _) as e -> raise e | e -> exn_name e) in
      (s, (if same || Bytes.to_string src = copy then 0 else 1), Bytes.to_string dst)
  | "pad" ->
      let Some p = pad_of (tag a "pad") [@@warning "-8"] in
      let b = Bytes.of_string (str a "buf") in p#pad b (int a "used"); bytes_ (Bytes.to_string b)
  | "strip" ->
      let Some p = pad_of (tag a "pad") [@@warning "-8"] in
      let s = str a "buf" in
      let b = Bytes.of_string s in
      let n = p#strip b in
      ("ok", n, Bytes.to_string b)
  (* helpers *)
  | "tstring" -> watch a; let d = str a "d" in if has a "gc" then gc_arm (int a "gc"); bytes_ (transform_string (getT (int a "o")) d)
  | "hstring" -> watch a; let d = str a "d" in if has a "gc" then gc_arm (int a "gc"); bytes_ (hash_string (getH (int a "o")) d)
  | "atstring" -> watch a; let d = str a "d" in if has a "gc" then gc_arm (int a "gc"); bytes_ (auth_transform_string (getA (int a "o")) d)
  | "atdet" -> watch a; let (x, t) = auth_transform_string_detached (getA (int a "o")) (str a "d") in
      ("ok", String.length x, x ^ t)
  | "acheck" -> watch a; (match auth_check_transform_string (getA (int a "o")) (str a "d") with
      | None -> ("none", 0, "") | Some s -> ("some", 0, s))
  | "tchan" ->
      watch a;
      let t = getT (int a "o") in
      let len = if has a "len" then Some (int a "len") else None in
      with_files a (fun ic oc -> transform_channel t ?len ic oc)
  | "hchan" ->
      watch a;
      let h = getH (int a "o") in
      let len = if has a "len" then Some (int a "len") else None in
      let res = ref "" in
      let (s, p, _) = with_files a (fun ic _ -> res := hash_channel h ?len ic) in
      (s, p, !res)
  (* generators *)
  | "rnd" ->
      let r = getR (int a "o") in
      let b = Bytes.of_string (str a "buf") in
      if has a "gc" then gc_arm (int a "gc");
      (try r#random_bytes b (int a "ofs") (int a "len"); bytes_ (Bytes.to_string b)
       with e -> (exn_name e, 0, Bytes.to_string b))
  | "rndf" -> (* the k-th call to the operating system fails; n: whether it happened *)
      let r = getR (int a "o") in
      let b = Bytes.of_string (str a "buf") in
      ignore (entropy (int a "k"));
      let s = (try r#random_bytes b (int a "ofs") (int a "len"); "ok" with e -> exn_name e) in
      (s, entropy 0, Bytes.to_string b)
  | "rstr" -> if has a "gc" then gc_arm (int a "gc"); bytes_ (Random.string (getR (int a "o")) (int a "len"))
  | "rstat" -> (* presence statistic for non-deterministic generators: OR over
                  [reps] requests of the bytes written; every requested byte must
                  have been written, i.e. vary *)
      let r = getR (int a "o") and len = int a "len" and ofs = int a "ofs"
      and tot = int a "tot" in
      let seen = Array.make tot [] in
      for i = 1 to int a "reps" do
        let b = Bytes.make tot '\x5A' in
        r#random_bytes b ofs len;
        for j = 0 to tot - 1 do
          let c = Bytes.get b j in
          if not (List.mem c seen.(j)) then seen.(j) <- c :: seen.(j) done
      done;
      bytes_ (String.init tot (fun j -> Char.chr (min 255 (List.length seen.(j)))))
  (* utilities *)
  | "streq" -> num (if string_equal (str a "x") (str a "y") then 1 else 0)
  | "beq" -> num (if bytes_equal (Bytes.of_string (str a "x")) (Bytes.of_string (str a "y")) then 1 else 0)
  | "xorb" | "xors" ->
      let src = str a "src" and dst = Bytes.of_string (str a "dst") in
      let bsrc = Bytes.of_string src in
      if has a "same" then begin   (* source and destination in the same buffer *)
        xor_bytes dst (int a "sofs") dst (int a "dofs") (int a "len"); bytes_ (Bytes.to_string dst)
      end else begin
      let st = (try (if op = "xorb" then xor_bytes bsrc (int a "sofs") dst (int a "dofs") (int a "len")
                     else xor_string src (int a "sofs") dst (int a "dofs") (int a "len")); "ok"
                with e -> exn_name e) in
      (st, (if Bytes.to_string bsrc = str a "src" && src = str a "src" then 0 else 1), Bytes.to_string dst) end
  | "wipeb" -> let b = Bytes.of_string (str a "d") in wipe_bytes b; bytes_ (Bytes.to_string b)
  | "wipes" -> let s = str a "d" in wipe_string s; bytes_ s
  | "modpow" -> let x = str a "x" and y = str a "y" and m = str a "m" in
      if has a "gc" then gc_arm (int a "gc"); bytes_ (mod_power x y m)
  | "modmul" -> bytes_ (mod_mult (str a "x") (str a "y") (str a "m"))
  (* public key *)
  | "rsa_new" ->
      let e = if has a "e" then Some (int a "e") else None in
      let (k, p) = RSA.new_key ?rng:(opt_rng a) ?e (int a "bits") in
      Hashtbl.replace objs (int a "o") (RSA (k, p));
      ("ok", (if k.RSA.size = p.RSA.size then k.RSA.size else -1),
       pack [k.RSA.n; k.RSA.d; k.RSA.p; k.RSA.q; k.RSA.dp; k.RSA.dq; k.RSA.qinv;
             p.RSA.n; p.RSA.e])
  | "rsa_enc" -> bytes_ (RSA.encrypt (rsa_pub a) (str a "m"))
  | "rsa_unwrap" -> bytes_ (RSA.unwrap_signature (rsa_pub a) (str a "m"))
  | "rsa_dec" -> bytes_ (RSA.decrypt (rsa_priv a) (str a "m"))
  | "rsa_sign" -> bytes_ (RSA.sign (rsa_priv a) (str a "m"))
  | "rsa_dec_crt" -> bytes_ (RSA.decrypt_CRT (rsa_priv a) (str a "m"))
  | "rsa_sign_crt" -> bytes_ (RSA.sign_CRT (rsa_priv a) (str a "m"))
  | "rsa_owipe" -> (match Hashtbl.find objs (int a "o") with
      | RSA (k, _) -> RSA.wipe_key k; bytes_ (k.RSA.d ^ k.RSA.p ^ k.RSA.q ^ k.RSA.dp ^ k.RSA.dq ^ k.RSA.qinv)
      | Pai (k, _) -> Paillier.wipe_key k; Paillier.(bytes_ (k.p ^ k.q ^ k.lambda ^ k.mu))
      | _ -> failwith "rsa_owipe")
  | "rsa_wipe" -> let k = rsa_priv a in RSA.wipe_key k;
      bytes_ (k.RSA.d ^ k.RSA.p ^ k.RSA.q ^ k.RSA.dp ^ k.RSA.dq ^ k.RSA.qinv)
  | "pai_new" ->
      let (k, p) = Paillier.new_key ?rng:(opt_rng a) (int a "bits") in
      Hashtbl.replace objs (int a "o") (Pai (k, p));
      ("ok", (if k.Paillier.size = p.Paillier.size then k.Paillier.size else -1),
       Paillier.(pack [k.n; k.n2; k.p; k.q; k.lambda; k.mu; p.n; p.n2; p.g]))
  | "pai_enc" -> bytes_ (Paillier.encrypt ?rng:(opt_rng a) (pai_pub a) (str a "m"))
  | "pai_dec" -> bytes_ (Paillier.decrypt (pai_priv a) (str a "m"))
  | "pai_add" -> bytes_ (Paillier.add (pai_pub a) (str a "x") (str a "y"))
  | "pai_wipe" -> let k = pai_priv a in Paillier.wipe_key k;
      Paillier.(bytes_ (k.p ^ k.q ^ k.lambda ^ k.mu))
  | "dh_params" ->
      let privlen = if has a "privlen" then Some (int a "privlen") else None in
      let p = DH.new_parameters ?rng:(opt_rng a) ?privlen (int a "bits") in
      Hashtbl.replace objs (int a "o") (DHP p);
      ("ok", p.DH.privlen, pack [p.DH.p; p.DH.g])
  | "dh_set" -> Hashtbl.replace objs (int a "o")
      (DHP { DH.p = str a "p"; g = str a "g"; privlen = int a "privlen" }); ok
  | "dh_secret" ->
      let p = (match Hashtbl.find objs (int a "p") with DHP p -> p | _ -> failwith "dhp") in
      Hashtbl.replace objs (int a "o") (DHS (DH.private_secret ?rng:(opt_rng a) p)); ok
  | "dh_msg" ->
      (match Hashtbl.find objs (int a "p"), Hashtbl.find objs (int a "o") with
       | DHP p, DHS s -> bytes_ (DH.message p s) | _ -> failwith "dh_msg")
  | "dh_shared" ->
      (match Hashtbl.find objs (int a "p"), Hashtbl.find objs (int a "o") with
       | DHP p, DHS s -> bytes_ (DH.shared_secret p s (str a "m")) | _ -> failwith "dh_shared")
  | "derive" -> bytes_ (DH.derive_key ?diversification:(stro a "div") (str a "secret") (int a "len"))
  | "chkin" -> (* were any of the strings given to constructors modified? *)
      num (List.length (List.filter (fun (s, h) -> s <> unhex h) !kept))
  | "memdump" ->
      let d = Drvx.memdump (obj_of a) in
      if has a "full" then bytes_ d else ("ok", 0, Digest.string d)
  | _ -> Drvx.exec { Drvx.int = int a; into = into a; str = str a; has = has a; tag = tag a;
                     hash = (fun () -> hash_of a);
                     getT = (fun () -> getT (int a "o"));
                     getB = (fun () -> getB (int a "o"));
                     getS = (fun () -> getS (int a "o"));
                     getR = (fun () -> getR (int a "o")) } op

let pairs kvs =
  List.filter_map (fun kv ->
    match String.index_opt kv '=' with
    | None -> None
    | Some i -> Some (String.sub kv 0 i, String.sub kv (i+1) (String.length kv - i - 1))) kvs

(* the operations of [body] (one per line) over and over, each time on new objects; by how
   much the C blocks in use, the bytes of C memory, the live words of the OCaml heap and the
   open file descriptors have grown.  n: how many operations succeeded in the last round *)
external cblocks : unit -> int = "drv_cblocks"
external cbytes : unit -> int = "drv_cbytes"
let churn body rep =
  let ops = List.map (fun l ->
      match String.split_on_char ' ' l with op :: kvs -> (op, pairs kvs) | [] -> ("", []))
    (String.split_on_char '\n' body) in
  let good = ref 0 in
  let once () =
    good := 0;
    List.iter (fun (op, a) ->
      fresh := [];
      (try let (s, _, _) = exec op a in if s = "ok" then incr good with Missing _ as e -> raise e | _ -> ())) ops;
    fresh := []; kept := [] in
  let measure () =
    Hashtbl.reset objs; Hashtbl.reset wipes; fresh := []; kept := [];
    Gc.full_major (); Gc.full_major ();
    let g = Gc.stat () in
    (cblocks (), cbytes () - 8 * g.Gc.heap_words, g.Gc.live_words, Array.length (Sys.readdir "/proc/self/fd")) in
  for _ = 1 to rep / 4 do once () done;
  (* the run-time system's own tables grow now and then: the least growth of three rounds *)
  let round () =
    let (a1, b1, c1, d1) = measure () in
    for _ = 1 to rep do once () done;
    let (a2, b2, c2, d2) = measure () in
    (a2 - a1, b2 - b1, c2 - c1, d2 - d1) in
  let least (a, b, c, d) (e, f, g, h) = (min a e, min b f, min c g, min d h) in
  let r1 = round () in
  let r2 = round () in
  let (a, b, c, d) = least (least r1 r2) (round ()) in
  let e n = String.sub (i64s (max 0 (min 0x3fffffff n))) 4 4 in
  ("ok", !good, e a ^ e b ^ e c ^ e d)

(* the operations of [body] while the k-th C allocation fails.  Each must succeed or raise
   Out_of_memory; nothing may crash, then or when the remains are collected; afterwards
   everything works again.  n: allocations that failed; bytes: 1 per operation as it should *)
external failmalloc : int -> int = "drv_failmalloc"
let oom body k =
  let ops = List.map (fun l ->
      match String.split_on_char ' ' l with op :: kvs -> (op, pairs kvs) | [] -> ("", []))
    (String.split_on_char '\n' body) in
  let once () = List.map (fun (op, a) -> fresh := []; try exec op a with Missing _ as e -> raise e | e -> (exn_name e, 0, "")) ops in
  let clean () = Hashtbl.reset objs; fresh := []; kept := []; Gc.full_major () in
  let r0 = once () in
  clean ();
  ignore (failmalloc k);
  let r1 = (try once () with e -> ignore (failmalloc 0); raise e) in
  let f = failmalloc 0 in
  clean ();
  let r2 = once () in
  clean ();
  (* once an operation failed, the following ones have no object to work on *)
  let failed = ref false in
  let good (s0, _, b0) ((s1, _, b1), (s2, _, b2)) =
    if s1 = "X:Out_of_memory" then failed := true;
    if s0 = s2 && b0 = b2 && (!failed || (s0 = s1 && b0 = b1)) then '\001' else '\000' in
  let l = List.map2 good r0 (List.combine r1 r2) in
  let l = if f > 0 && not !failed then l @ ['\000'] else l in
  ("ok", f, String.of_seq (List.to_seq l))

let () =
  (try while true do
    let l = input_line stdin in
    match String.split_on_char ' ' l with
    | [] -> ()
    | ("churn" | "oom" as op) :: kvs ->
        let a = pairs kvs in
        let (s, n, b) = if op = "oom" then oom (unhex (raw a "body")) (int a "k")
                        else churn (unhex (raw a "body")) (int a "rep") in
        if !nresults >= Array.length !results then
          results := Array.append !results (Array.make (Array.length !results) "");
        !results.(!nresults) <- b; incr nresults;
        Printf.printf "s=%s n=%d b=x%s\n%!" s n (hex b)
    | "trace" :: _ -> Hashtbl.reset objs; Hashtbl.reset slots; Hashtbl.reset wipes; kept := []; nresults := 0; Drvx.reset ()
    | op :: kvs ->
        let a = pairs kvs in
        fresh := [];
        if not !Drvx.inspecting then dirt (0x35 + 61 * !nresults);
        let (s, n, b) =
          try exec op a with
          | Missing k -> ("DRV:missing:" ^ k, 0, "")
          | e -> (exn_name e, 0, "") in
        let s =
          if List.mem op ["wipes"; "rsa_wipe"; "pai_wipe"]
          || List.for_all (fun (s, h) -> s = unhex h) !fresh
          then s else "INPUT_MODIFIED" in
        if op = "new" then begin
          if tago a "mut" "0" = "1" then
            List.iter (fun (s, _) -> Bytes.fill (Bytes.unsafe_of_string s) 0 (String.length s) '\xA5') !fresh
          else if has a "keep" then kept := !fresh @ !kept
        end;
        fresh := [];
        if !nresults >= Array.length !results then
          results := Array.append !results (Array.make (Array.length !results) "");
        !results.(!nresults) <- b; incr nresults;
        Printf.printf "s=%s n=%d b=x%s\n%!" s n (hex b)
  done with End_of_file -> ())
