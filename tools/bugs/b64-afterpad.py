PROP="C12"
NEEDS="padding in the middle of the text, exactly on a group boundary (e.g. decoding 'QUJD=QUJD')"
BREAKS="data after padding is accepted and decoded instead of raising the bad-encoding error"
EDITS=[("src/cryptokit.ml","""      if c = '=' then finished <- true else begin""","""      if c = '=' then finished <- ipos > 0 else begin""")]
DEMO='''open Cryptokit
let () =
  match transform_string (Base64.decode ()) "QUJD=QUJD" with
  | exception Error Bad_encoding -> exit 0
  | _ -> exit 1
'''
