PROP="C20"
NEEDS="a CBC decryption object that is wiped after having processed at least one block"
BREAKS="the saved ciphertext block survives the wipe"
EDITS=[("src/cryptokit.ml","""      wipe_bytes iv;
      wipe_bytes next_iv
""","""      wipe_bytes (if Bytes.get iv 0 = Bytes.get next_iv 0 then iv else next_iv);
      Bytes.fill iv 0 blocksize '\\000'
""")]
DEMO='''open Cryptokit
let () =
  let c = new Block.cbc_decrypt ~iv:(String.make 16 'i') (new Block.aes_decrypt (String.make 16 'k')) in
  let src = Bytes.of_string "SECRETCIPHERTEXT" and dst = Bytes.create 16 in
  c#transform src 0 dst 0;
  c#wipe;
  let m = Marshal.to_string (Obj.reachable_words (Obj.repr c)) [] in
  ignore m;
  (* look for the block in everything reachable from the object *)
  let found = ref false in
  let seen = Hashtbl.create 100 in
  let rec go (o : Obj.t) depth =
    if Obj.is_block o && depth < 12 && not (Hashtbl.mem seen o) then begin
      let t = Obj.tag o in
      if t = Obj.string_tag then begin
        if (Obj.obj o : string) = "SECRETCIPHERTEXT" then found := true
      end else if t < Obj.no_scan_tag && t <> Obj.closure_tag && t <> Obj.infix_tag then
        for i = (if t = Obj.object_tag then 1 else 0) to Obj.size o - 1 do go (Obj.field o i) (depth + 1) done
    end in
  (try go (Obj.repr c) 0 with _ -> ());
  exit (if !found then 1 else 0)
'''
