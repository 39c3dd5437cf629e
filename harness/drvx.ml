(* Extension operations: files and pipes for the device generator, memory inspection,
   bulk data.  See drv.ml *)
open Cryptokit
type ctx = { int : string -> int; into : string -> int -> int; str : string -> string;
             has : string -> bool; tag : string -> string;
             hash : unit -> hash; getT : unit -> transform;
             getB : unit -> Block.block_cipher;
             getS : unit -> Stream.stream_cipher; getR : unit -> Random.rng }

external memdump_c : Obj.t -> (bytes -> int -> unit) -> unit = "drv_memdump"
external watch : Obj.t -> unit = "drv_watch"
external cost : (unit -> unit) -> int = "drv_cost"
external init_c : unit -> unit = "drv_init"
let () = init_c ()

(* canonical dump of the memory reachable from an object *)
let memdump r =
  let b = Buffer.create 10000 in
  memdump_c r (fun s n -> Buffer.add_subbytes b s 0 n);
  Buffer.contents b

(* ---- device files ---- *)
let files = ref [] and pids = ref []
let inspecting = ref false
let reset () =
  inspecting := false;
  List.iter (fun f -> try Sys.remove f with _ -> ()) !files; files := [];
  List.iter (fun p -> (try Unix.kill p Sys.sigkill with _ -> ()); (try ignore (Unix.waitpid [] p) with _ -> ())) !pids;
  pids := []
(* a file holding [data]; with [chunks] = "3,1,5": a named pipe through which the data
   arrives in pieces of these sizes (the rest in one piece) *)
let device_file data chunks =
  let dir = Filename.get_temp_dir_name () in
  let f = Filename.temp_file ~temp_dir:dir "ckdev" ".bin" in
  files := f :: !files;
  if chunks = "" then begin
    let oc = open_out_bin f in output_string oc data; close_out oc
  end else begin
    Sys.remove f;
    Unix.mkfifo f 0o600;
    let sizes = List.map int_of_string (String.split_on_char ',' chunks) in
    match Unix.fork () with
    | 0 ->
        (try
          let fd = Unix.openfile f [Unix.O_WRONLY] 0 in
          let pos = ref 0 and n = String.length data in
          let wr k =
            let k = min k (n - !pos) in
            if k > 0 then begin
              ignore (Unix.write_substring fd data !pos k); pos := !pos + k;
              ignore (Unix.select [] [] [] 0.004)
            end in
          List.iter wr sizes; wr n;
          Unix.close fd
        with _ -> ());
        Unix._exit 0
    | pid -> pids := pid :: !pids
  end;
  f

(* ---- bulk data ---- *)
(* pattern of length l: byte i is (i * 131 + (i / 256) * 17 + seed) mod 256 *)
let pat l seed = Bytes.init l (fun i -> Char.chr ((i * 131 + (i / 256) * 17 + seed) land 255))

(* leave recognizable garbage in free memory, so that what an object finds in
   freshly allocated memory varies *)
let dirty v =
  inspecting := true;
  let keep = ref [] in
  for i = 0 to 300 do keep := Bytes.make (300 + i) (Char.chr v) :: !keep done;
  for i = 0 to 60 do keep := Bytes.make (3000 + 64 * i) (Char.chr v) :: !keep done;
  ignore (Sys.opaque_identity !keep);
  keep := [];
  Gc.full_major ();
  (* the minor heap *)
  for i = 0 to 4000 do ignore (Sys.opaque_identity (Bytes.make 700 (Char.chr v))) done

let exec (c : ctx) op : string * int * string =
  match op with
  | "dirty" -> dirty (c.int "v"); ("ok", 0, "")
  | "bulkhash" ->
      (* n repetitions of a pattern of length l, then its first t bytes, in one
         add_substring or piece by piece *)
      let h = c.hash () in
      let l = c.int "l" and n = c.int "n" and t = c.int "t" in
      let p = pat l (c.into "seed" 0) in
      if c.tag "how" = "one" then begin
        let big = Bytes.create (l * n + t) in
        if n > 0 then begin
          Bytes.blit p 0 big 0 l;
          let filled = ref l in
          while !filled < l * n do
            let k = min !filled (l * n - !filled) in
            Bytes.blit big 0 big !filled k; filled := !filled + k
          done
        end;
        Bytes.blit p 0 big (l * n) t;
        h#add_substring big 0 (l * n + t)
      end else begin
        for _ = 1 to n do h#add_substring p 0 l done;
        h#add_substring p 0 t
      end;
      ("ok", 0, h#result)
  | "bulkctr" ->
      (* up to n blocks through block cipher object o; how many succeeded, and the last
         successful output *)
      let b = c.getB () in
      let bs = b#blocksize in
      let src = Bytes.make bs '\000' in
      let dst = [| Bytes.make bs '\000'; Bytes.make bs '\000' |] in
      let k = ref 0 in
      let s = (try for _ = 1 to c.int "n" do b#transform src 0 dst.(!k land 1) 0; incr k done; "ok"
               with Error Message_too_long -> "E:Message_too_long") in
      (s, !k, Bytes.to_string dst.((!k + 1) land 1))
  | "eqcost" ->
      (* instructions needed to compare x and y *)
      let x = c.str "x" and y = c.str "y" in
      let bx = Bytes.of_string x and by = Bytes.of_string y in
      let f = if c.tag "m" = "s" then (fun () -> ignore (Sys.opaque_identity (string_equal x y)))
              else (fun () -> ignore (Sys.opaque_identity (bytes_equal bx by))) in
      Gc.minor ();
      let k = cost f in
      ("ok", min k (min (cost f) (cost f)), "")
  | _ -> Drvbig.exec ~int:c.int ~into:c.into ~str:c.str ~has:c.has ~tag:c.tag ~hash:c.hash
                     ~getT:c.getT ~getS:c.getS ~getR:c.getR op
