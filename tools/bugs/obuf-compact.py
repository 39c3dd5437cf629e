PROP="C04"
NEEDS="output read partially byte by byte so that the internal buffer is compacted while the pending output and the new data exactly fill it"
BREAKS="output is written past what the buffer holds or lost: the transform raises instead of delivering output"
EDITS=[("src/cryptokit.ml","""        if oend - obeg + n < len then begin
          Bytes.blit obuf obeg obuf 0 (oend - obeg);
          oend <- oend - obeg;
          obeg <- 0
        end else begin""","""        if obeg > 0 && oend - obeg + n <= len then begin
          Bytes.blit obuf obeg obuf 0 (min (oend - obeg) (len - n - 1));
          oend <- oend - obeg;
          obeg <- 0
        end else begin""")]
DEMO='''open Cryptokit
let () =
  let t = Hexa.encode () in
  (* a hexadecimal encoder has a buffer of 256 bytes *)
  let b = Buffer.create 100 in
  for i = 0 to 127 do t#put_byte i done;
  Buffer.add_char b t#get_char; Buffer.add_char b t#get_char;
  t#put_byte 128;
  t#finish;
  Buffer.add_string b t#get_string;
  let s = String.init 129 Char.chr in
  exit (if Buffer.contents b = transform_string (Hexa.encode ()) s then 0 else 1)
'''
