import json
T={
"C01":"property-based round trip over generated texts","C02":"property-based invariant (octet limit, reference unfolding) over generated lines",
"C03":"property-based round trip of generated calendars against a model","C04":"property-based idempotence of load-and-save over grammar-generated documents",
"C05":"structured fuzzing (tokens, mutated documents, repetition, nesting) with crash, hang and allocation oracles","C06":"grammar-based generation against the generating model",
"C07":"metamorphic: one document, two layouts","C08":"fault injection: every truncation, structural damage and junk lines in generated documents",
"C09":"differential against a reference unfolder","C10":"grammar-based generation against the generating model","C11":"property-based round trip and strict reader over parsed models",
"C12":"property-based round trip plus reference formatter","C13":"property-based round trip plus reference duration arithmetic","C14":"stateful model-based testing of setter sequences",
"C15":"stateful model-based testing of container operations","C16":"property-based invariant over written calendars","C17":"differential against an independent strict reader",
"C18":"property-based check against a table of the standard","C19":"differential against a reference conversion by search in the zone database","C20":"property-based JSON round trip",
"C21":"differential between all reading entry points","C22":"property-based round trip over generated parameters","C23":"metamorphic: all writers agree, writing has no effect","C24":"grammar-based generation against the generating model, with near-miss lookups",
"C25":"fault injection: documents with known mistakes, against a reference line scanner",
"C26":"metamorphic: memory and time for an input and for one that is 32 times as long",
"C27":"differential: the same recipe in builds with other features and profiles, in other environments"}
checks=[{"property":k,"quick_cmd":f"bash run.sh {k} quick","thorough_cmd":f"bash run.sh {k} thorough","technique":v,"level":"exploration",
 "level_note":"Sampled: a pure function of VERIF_SEED; no violation among the generated cases counted in the evidence. Trusts the harness's model, generators and reference implementations (DESIGN.md)."} for k,v in T.items()]
json.dump({"version":1,"setup_cmd":"bash run.sh setup","checks":checks,"not_applicable":[],"notes":"No hooks: the harness uses the public interface of the crate only. `bash run.sh replay FILE` repeats a reported failure."},open('/verif/MANIFEST.json','w'),indent=1)
