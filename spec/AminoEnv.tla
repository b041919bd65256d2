------------------------------ MODULE AminoEnv ------------------------------
(* The types and codecs of one run, read from the file that AMINO_ENV       *)
(* names; they are those that the harness made and registered.              *)
EXTENDS IOUtils, Json

Env == JsonDeserialize(IOEnv.AMINO_ENV)
Types == Env.types
Codecs == Env.codecs
Names == Env.names
=============================================================================
