#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "TLA+ specification checked with TLC; TLC-generated scenarios replayed into the code, and the recorded traces checked against the specification"
D = {}
def claim(id, note, technique=T):
    D[id] = (note, technique)

claim("C08", "The restoration rule is proved for all integers by Apalache and enumerated by TLC; the code is bound to it on every scenario of the model at several scales plus random lists. Floating-point inputs are sampled.")
claim("C09", "As C08, for drifts of one and a half steps or more and for the undecided zone between.")

claim("C05", "Framing is exhaustively enumerated at small parameters and the code is replayed on every domain class, word count, partial fill and boundary length of the model; the parity equations of all five codes are in the specification, so the encoded bytes are judged independently of the library.")
claim("C06", "The decoder is a state machine whose corrections of every one and two flips (up to the cyclic symmetry of the codes) are enumerated by TLC; the code is replayed on generated flip plans, on the flip pairs that take the decoder longest and on sweeps of single and double flips.")
claim("C07", "The record grammar is enumerated for short components and the code replayed on all of those and on the boundary sizes 247..256 of each component.")
claim("C10", "The ideal signature functionality is enumerated over keys, data and alterations; the code is replayed on it, on every single-bit alteration, on boundary sizes and on the RFC 8032 vectors. Cryptographic strength itself is assumed.")
claim("C15", "Conversions are specified on 16-bit limbs, enumerated over boundary limbs and lengths, and the code is replayed on those and on every 16-bit value.")
claim("C16", "The Haar pyramid is specified on integers scaled by 2^levels; linearity makes the unit matrices of each shape decisive, which the model enumerates with every shape up to the bound; the code is replayed on all of them and on large matrices.")

claim("C01", "The quantisation lemma is proved for all integers by Apalache and enumerated by TLC for single blocks; embeddings and extractions of the code are recorded over all code classes, shapes, levels, depths and payload boundaries, and the specification decides which of them owe the payload. Pixel contents are sampled.")
claim("C02", "The bound on the shift is proved for all integers by Apalache; every recorded embedding is judged block by block and pixel by pixel, clamping and half-way cases included. Pixel contents are sampled; of domains beyond 65536 coefficients some hundred blocks are judged.")
claim("C03", "The layout (order of coefficients, framing, parity equations of all five codes, side of the nearest multiple) is specified apart from the code; embeddings of the code are judged bit by bit, and marks laid out by the recorder and accepted by the specification are given to extraction.")
claim("C04", "Capacity is a function of the shape in the specification; the code is replayed on every shape and message length around each boundary, and on refusals.")
claim("C11", "The life of a channel is a state machine whose histories TLC enumerates; the recorder replays them on the code and the trace specification decides acceptance from observed features, restored values and signature checks of its own.")
claim("C12", "As C11, for histories with content changes, transplants, forged records and other parameters.")
claim("C13", "Channel composition is specified over pools of planes; the code is replayed on every colour type and plane assignment the model enumerates, at several shapes.")
claim("C14", "Runs of the tool are a state machine over a file system; TLC enumerates argument lists over one rich folder layout and a part of them, new for every seed, is run with the real binary; the whole tree is compared afterwards. One layout; failing disks are not modelled.")
claim("C19", "Models and processes are values in the specification; TLC enumerates short histories of constructor, setter and getter calls and simulates long ones, all replayed on the crate built natively against stand-ins for js-sys and wasm-bindgen. Blobs of every format and colour type are sampled; the wasm binary itself is not run.")
claim("C17", "Moments are computed in the specification in exact integers (scaled fixed point on limbs) and compared with the code on images the model enumerates; larger images through the symmetries. Real-number accuracy is bounded, not exact.")
claim("C18", "Sequential histories cover every ordered pair of calls of a set of some 140 calls; concurrent histories are sampled on eight threads, against results of calls made alone in a process of their own. Interleavings inside a call are left to the scheduler.")
claim("C20", "The tolerance lemma is proved for all integers by Apalache; the loss of coefficients is enumerated on small marks. Disturbances planned by TLC (direction of the drift, way of moving the pixels, lost coefficients, unused blocks) are applied to marks of the code, and the specification decides from the pixels whether the payload is still owed.")
claim("C21", "Makers, pairs and an ideal signature are enumerated by TLC; the code is replayed on these histories with pairs from several threads and processes. Freshness and spread are compared over the pairs made; the operating system's random source is assumed.")
claim("C22", "Factorials 0! to 170! are computed in the specification in exact integers and compared with the code; other arguments by the recurrence (sampled) and known values. Histories of seeding and drawing from two sources are enumerated by TLC and replayed; the values themselves are an uninterpreted function of seed and position.")
claim("C23", "The page is a state machine over choices and ends of reading; TLC enumerates the histories, a part of them, new for every seed, is replayed on the page's sources under Node against stand-ins for the browser, React and the library, and the canvases are compared pixel by pixel. A real browser and the wasm binary are not run.")
claim("C24", "Layouts (strides, offset, order) are a state machine over looks at a buffer; TLC enumerates all sequences of up to three (thorough four) looks, and on each the operations are called with a matrix laid out so and must return what they return for the plain one. The matrices are random.")
claim("C25", "Basis values and moments are computed in the specification in exact integers and compared with the code within 20 to 200 millionths: all small binary images the model enumerates, and every order up to 20 and repetition on random images; the exact symmetries are invariants of the model.")
claim("C26", "The tool is a machine of single steps (make folders, read, open, write in parts, report) with a kill or a fault possible in every state; TLC checks what a user relies on over every such history. The same argument lists are run with the real binary under a preloaded shim that kills it at an open, a write or a report, or makes an open, read or write fail, come short or be interrupted, or sets the clock's pace; reports, end and the whole tree are judged by the specification. A killed process keeps what it wrote: power failures are not modelled.")

NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bin/setup",
         hooks=dict(guard="--cfg sia_verif", enable="RUSTFLAGS='--cfg sia_verif' cargo build --release --offline --manifest-path /verif/harness/Cargo.toml",
                    source_commits=["de18f97b7f7e8898318562e3a76a2726f7f0d89d", "e53bf7195b4f7aa7321ea0a8b9a31021e8e3725c"]),
         checks=[dict(property=i, quick_cmd="bin/check " + i, thorough_cmd="VERIF_TIER=thorough bin/check " + i,
                      evidence_file="evidence/%s.json" % i, technique=D[i][1], level="model_checking", level_note=D[i][0])
                 for i in ids if i in D],
         not_applicable=[dict(property=i, reason=NA.get(i, "the check is not built yet")) for i in ids if i not in D])
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
