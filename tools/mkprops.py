#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
R = "lib/sia/rust/"
at = lambda f: f if f.startswith("src/") else R + f
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=[at(f) for f in files],
                               state=[dict(name=a, meaning=b, where=at(c)) for a,b,c in (state or [])],
                               mechanism=[dict(name=a, where=at(b)) for a,b in mech],
                               observe_at=observe or [], hook_needed=hook)))

prop("C01", "An embedded payload is read back bit for bit",
 "For every 8-bit grey matrix, square or not, whose sides are multiples of 2^levels, every payload that embedding accepts (the empty one included) and every depth above 2^(levels+1), extracting from the returned matrix with the same depth and levels yields exactly the embedded payload. This is owed whenever every source pixel lies at least 0.75*depth/2^levels + 1 away from both 0 and 255, so that nothing is clamped.",
 ["inputs", "configurations"], "all matrices with headroom, all sides, levels >= 1, depths, payload lengths and contents",
 "One test embeds two bytes into one 32x32 matrix at one depth and level; non-square sides, other code sizes, unprotected domains, partial trailing codewords and the empty payload are never tried.",
 ["embedding/src/lib.rs", "embedding/src/io/steganography.rs", "embedding/src/io/data.rs", "encoding/src/lib.rs"],
 [("embed/extract pipeline", "embedding/src/lib.rs:27"), ("coefficient quantisation", "embedding/src/io/steganography.rs:58"), ("length framing", "embedding/src/io/data.rs:14"), ("error correcting code", "encoding/src/lib.rs:51")],
 [("approximation band", "the block averages that carry the bits", "embedding/src/lib.rs:41")],
 ["embedding::embed", "embedding::extract"])

prop("C02", "Embedding only shifts whole blocks, by a bounded amount",
 "Embedding returns a matrix of the same shape in which each 2^levels x 2^levels block of pixels moved by one common whole number (up to clamping at 0 and 255, and to either neighbour where the shift is exactly half-way), never by more than 0.75*depth/2^levels rounded up. Blocks past the last bit of the protected payload are returned unchanged.",
 ["inputs", "configurations"], "all matrices, shapes, levels, depths and payloads, clamping included",
 "No test looks at the pixels of a marked image at all; a change that smears detail, touches unused blocks or doubles the distortion passes as long as two bytes still read back.",
 ["embedding/src/lib.rs", "embedding/src/haar/mod.rs", "embedding/src/io/steganography.rs"],
 [("only the approximation band is rewritten", "embedding/src/lib.rs:41"), ("inverse transform and rounding", "embedding/src/lib.rs:59"), ("nearest-cell quantisation", "embedding/src/io/steganography.rs:58")],
 None, ["embedding::embed"])

prop("C03", "The layout of a mark inside an image is fixed",
 "Bit i of the protected payload (least significant bit of each byte first) is carried by the i-th approximation coefficient in row-major order, which is moved to a quarter of depth above (1) or below (0) the nearest multiple of depth, and reads as 1 from a coefficient above its nearest multiple of depth and as 0 from one below it; the protected payload is the error-corrected form of a big-endian length, a little-endian payload length and the payload. Hence a mark written by any earlier build is read correctly, and a mark written now is readable by any earlier build.",
 ["inputs", "configurations"], "all images, payloads, depths, levels and domain shapes",
 "Tests only pair this build's writer with this build's reader, so a matching change in both goes unseen although it orphans every image already marked.",
 ["embedding/src/io/steganography.rs", "embedding/src/io/data.rs", "encoding/src/lib.rs", "embedding/src/lib.rs"],
 [("bit to coefficient mapping", "embedding/src/io/steganography.rs:22"), ("writer", "embedding/src/io/steganography.rs:58"), ("reader", "embedding/src/io/steganography.rs:129"), ("length headers", "embedding/src/io/data.rs:21")],
 None, ["embedding::embed", "embedding::extract", "encoding::encode"])

prop("C04", "Embedding is all or nothing at the capacity limit",
 "A domain of N approximation coefficients holds floor(N/8) bytes, and embedding succeeds exactly when the sides are multiples of 2^levels, that capacity is at least 9 bytes, the payload is at most 65533 bytes and its protected form fits the capacity. Every other request is refused outright; no request succeeds with a truncated, wrapped or partly written payload.",
 ["inputs", "configurations"], "all payload lengths from 0 past the limit, for all domain sizes",
 "Tests stay far below capacity; the exact limit depends on the code chosen for each domain size, on rounding up to whole codewords and on 16-bit length fields.",
 ["embedding/src/lib.rs", "embedding/src/io/steganography.rs", "embedding/src/io/data.rs", "encoding/src/lib.rs"],
 [("capacity check in the writer", "embedding/src/io/steganography.rs:37"), ("minimum domain check", "embedding/src/lib.rs:16"), ("payload length check", "embedding/src/io/data.rs:17")],
 None, ["embedding::embed", "embedding::extract"])

prop("C05", "Error-correction framing is lossless for every length",
 "For every domain size and every message of 0 to 65535 bytes, decoding the encoded message gives the message back, also when the encoded form is followed by arbitrary filler up to the domain size. The encoded form is a whole number of codewords of the code that belongs to the domain size (TC128 for 16 bytes, TC256 for 32, TC512 for 64 or 128, TM2048 for 256 or 512, TM8192 from 1024 on, none otherwise), each starting with its share of the length-prefixed, zero-padded message (or just the length-prefixed message where the domain size has no code); longer messages are refused.",
 ["inputs", "configurations"], "all message lengths and contents, all domain sizes, all fillers",
 "Tests try a dozen lengths at four domain sizes, all of which have a code, and never append filler, although extraction always reads the whole domain.",
 ["encoding/src/lib.rs"],
 [("code selection", "encoding/src/lib.rs:18"), ("chunking, padding and length prefix", "encoding/src/lib.rs:51"), ("de-framing", "encoding/src/lib.rs:108")],
 None, ["encoding::encode", "encoding::decode", "encoding::get_code_by_codeword_length", "encoding::get_code_for_encode"])

prop("C06", "Two flipped bits in every codeword are repaired",
 "Whenever a domain size has an error-correcting code, flipping any one or two bits in each codeword of an encoded message leaves the decoded message unchanged.",
 ["inputs", "fault_sequences"], "all messages, all codes, all patterns of at most two flips per codeword, in any subset of the codewords",
 "One test flips four bits of one byte of one codeword, and calls the third-party decoder directly instead of this library's decoder.",
 ["encoding/src/lib.rs"],
 [("bit-flipping decoder call and its iteration bound", "encoding/src/lib.rs:133"), ("code selection", "encoding/src/lib.rs:18")],
 None, ["encoding::encode", "encoding::decode"])

prop("C07", "Watermark records survive serialisation exactly",
 "Every record of a perturbation vector of 0 to 255 bits, a signature of 0 to 255 bytes and a text of 0 to 255 UTF-8 bytes serialises to three length bytes followed by the packed vector (least significant bit first, zero-filled last byte), the signature and the text, and reads back equal to the original, trailing bytes ignored. A component longer than 255 is refused instead of being recorded with a wrong length.",
 ["inputs"], "all component lengths and contents, including empty and maximal ones, and any trailing bytes",
 "One record with a 12-bit vector, a 4-byte signature and an ASCII text is tested.",
 ["watermarking/src/watermark.rs", "three-bit-quantization/src/lib.rs"],
 [("record writer", "watermarking/src/watermark.rs:21"), ("record reader", "watermarking/src/watermark.rs:53"), ("bit packing", "three-bit-quantization/src/lib.rs:9")],
 None, ["three_bit_quantization::perturbation_vector_as_bytes", "three_bit_quantization::perturbation_vector_from_bytes"],
 "re-export of the private record type under cfg(sia_verif)")

prop("C08", "Features that drift at most one step are restored",
 "For every list of features and every positive step, if each feature changes by at most one quantisation step, restoring the changed features with the perturbation vector of the original ones yields exactly the original quantised values. The perturbation vector has three bits per feature: the residue of (quantised value - 1) modulo 4, high bit first, and whether the feature lies in the upper half of its cell; it depends on that feature alone. (Drifts and cell borders are meant beyond floating-point rounding.)",
 ["inputs"], "all finite features, steps, list lengths and drifts with |drift| <= step",
 "Random features at 14 steps are tested with one pseudo-random drift each; cell borders, midpoints, the extreme drifts and all residues modulo four are hit only by luck.",
 ["three-bit-quantization/src/lib.rs"],
 [("quantisation and perturbation bits", "three-bit-quantization/src/lib.rs:46"), ("restoration case analysis", "three-bit-quantization/src/lib.rs:143")],
 None, ["three_bit_quantization::three_bit_quantization", "three_bit_quantization::three_bit_dequantization"])

prop("C09", "Features that drift 1.5 steps or more are never restored",
 "Whenever a feature changes by one and a half quantisation steps or more, in either direction and by any amount, restoring it with the original perturbation vector yields a value different from the original quantised value. Whether a drift between one and one and a half steps is repaired is decided by the position of the feature in the half cells as the three-bit rule prescribes.",
 ["inputs"], "all finite features, steps and drifts",
 "No test applies a drift larger than one step, so a rule that repairs everything, or that wraps around modulo four, would pass.",
 ["three-bit-quantization/src/lib.rs"],
 [("restoration case analysis", "three-bit-quantization/src/lib.rs:143"), ("residue modulo four", "three-bit-quantization/src/lib.rs:79")],
 None, ["three_bit_quantization::three_bit_quantization", "three_bit_quantization::three_bit_dequantization"])

prop("C10", "A signature verifies for exactly what was signed",
 "Verification succeeds if the signature was produced by signing these very bytes with the private key belonging to this public key, and fails for any other data, any altered signature bit and any other public key. Signatures are those of Ed25519 (RFC 8032), so signing is deterministic, and a byte string that is not a well-formed signature is answered with a negative result.",
 ["inputs", "histories"], "all data, key pairs and signatures, and all alterations of them",
 "The test signs four fixed bytes and checks acceptance only; it never checks that anything is rejected.",
 ["signature/src/lib.rs", "signature/src/ecdsa.rs", "signature/src/keypair.rs", "utils/src/format.rs"],
 [("sign", "signature/src/lib.rs:14"), ("verify", "signature/src/lib.rs:29"), ("hex keys", "utils/src/format.rs:3")],
 None, ["signature::sign", "signature::verify"])

prop("C11", "A freshly watermarked channel authenticates",
 "A watermarked channel is accepted, now and after any lossless storage, with the parameters it was watermarked with, whenever its mark can be read back and each of its features differs from the corresponding feature of the original by at most one quantisation step. The same holds for re-watermarking an already watermarked channel, for any number of features and any wavelet depth.",
 ["inputs", "histories", "configurations"], "all channels, depths, steps, feature counts, levels and sequences of watermarking steps",
 "One 512x512 picture with one parameter set is watermarked and authenticated.",
 ["watermarking/src/process.rs", "watermarking/src/watermark.rs", "three-bit-quantization/src/lib.rs", "embedding/src/lib.rs", "image-features/src/lib.rs"],
 [("watermarking a channel", "watermarking/src/process.rs:17"), ("authenticating a channel", "watermarking/src/process.rs:70")],
 None, ["watermarking::watermark"],
 "re-export of the private watermark_channel/authenticate_channel under cfg(sia_verif)")

prop("C12", "A channel whose signed content changed is not accepted",
 "A channel whose mark reads back is accepted exactly when the features of its histogram-equalised pixels, restored with the perturbation vector it carries, are the values covered by the signature it carries under the built-in key; any other channel is not accepted. So a channel with no mark, with a feature moved by 1.5 steps or more, with the mark of a channel whose values differ, with an altered or foreign signature, or read with parameters under which its mark or its values differ, is never accepted.",
 ["inputs", "histories", "fault_sequences"], "all sequences of watermarking, content changes, mark transplants and record corruptions",
 "No test checks a rejection.",
 ["watermarking/src/process.rs", "signature/src/lib.rs", "three-bit-quantization/src/lib.rs"],
 [("authentication decision", "watermarking/src/process.rs:101"), ("signature over restored features", "watermarking/src/process.rs:114")],
 None, ["embedding::extract"],
 "re-export of the private watermark_channel/authenticate_channel under cfg(sia_verif)")

prop("C13", "Every colour channel is marked, alpha and shape are kept",
 "Watermarking an image of any supported colour type returns an 8-bit image of the same width and height with the same presence of colour and of alpha; each of its colour (or grey) channels equals that channel of the input watermarked on its own, and alpha equals the input's alpha, where samples of 16 bits and floating-point samples count as the nearest 8-bit value. Channels do not influence each other, and landscape and portrait images are handled like square ones.",
 ["inputs", "configurations"], "all colour types, image sizes, pixel contents and parameters",
 "The public watermarking entry point is not called by any test; only one grey channel is watermarked.",
 ["watermarking/src/lib.rs", "watermarking/src/process.rs"],
 [("channel split", "watermarking/src/lib.rs:41"), ("channel merge", "watermarking/src/lib.rs:84"), ("output colour type", "watermarking/src/lib.rs:107")],
 None, ["watermarking::watermark"],
 "re-export of the private watermark_channel under cfg(sia_verif)")

prop("C14", "The command line writes one marked file per input, no other",
 "For every list of inputs, a suffix and an optional output folder, the tool writes for each input, in order, the image watermarked with depth 100, step 1 and eleven features to <stem>-<suffix>.<extension> in that folder (created if missing) or else in the current directory, in the format named by the extension, and leaves every other file, the inputs included unless one is itself the path of an output, as it was. It writes nothing without a suffix or without inputs, refuses an output path that is an existing file with a non-zero exit, and when an input cannot be processed it stops with a failure after having written exactly the outputs of the inputs before it.",
 ["inputs", "histories", "fault_sequences", "configurations"], "all argument lists, folder layouts, file formats and positions of a failing input",
 "The command line has no test at all; the makefile target that runs it checks nothing.",
 ["cli/src/main.rs"],
 [("argument handling", "cli/src/main.rs:83"), ("output path", "cli/src/main.rs:41"), ("per-input loop", "cli/src/main.rs:30")],
 [("file system", "set of paths and their contents", "cli/src/main.rs:57")],
 ["target/*/cli"])

prop("C15", "Byte and hex conversions are exact and fixed",
 "Lists of 16-bit and of 64-bit integers convert to little-endian bytes and back without change, for every value and length, so distinct lists never share an encoding; byte strings convert to two lower-case hex digits per byte and back without change, and upper-case digits read the same. A byte string whose length is not a multiple of the integer size, and text of odd length or with any character that is no hex digit (a sign or prefix included), is refused.",
 ["inputs"], "all integer lists, byte strings and hex strings",
 "Six integers, four integers and five bytes are tested, and only against the inverse of the same build.",
 ["utils/src/bytes.rs", "utils/src/format.rs"],
 [("integers to bytes", "utils/src/bytes.rs:20"), ("bytes to integers", "utils/src/bytes.rs:30"), ("hex", "utils/src/format.rs:3")],
 None, ["utils::bytes", "utils::format"])

prop("C16", "The wavelet transform is the exact multi-level Haar pyramid",
 "For every matrix whose sides are multiples of 2^levels, the forward transform leaves in the top left corner the sum of each 2^levels x 2^levels block divided by 2^levels and around it the horizontal, vertical and diagonal details (first minus second) of every level, and the inverse transform applied to it gives the matrix back. Other sides are refused.",
 ["inputs", "configurations"], "all matrices, shapes (square or not) and levels",
 "A 4x4 and a 32x32 square matrix are tested at levels 1 and 2.",
 ["embedding/src/haar/mod.rs"],
 [("2D transform", "embedding/src/haar/mod.rs:19"), ("1D transform", "embedding/src/haar/mod.rs:4")],
 None, [], "re-export of the private dwt_2d under cfg(sia_verif)")

prop("C17", "Features are the Zernike moments of the pixel grid",
 "The feature list for an amount k holds k values, the magnitudes of the Zernike moments of order 2k-1 and repetitions 1, 3, ..., 2k-1 of the image, whose pixel centres lie on a square grid inscribed in the unit disc (an image that is not square is first centred, rounding down, in the square of its longer side, the rest black); each moment is the sum of pixel times conjugate basis value, scaled by (order+1)/pi and divided by the number of pixels. Hence, up to floating-point rounding, features of square images are unchanged by quarter turns and mirroring and scale with brightness.",
 ["inputs", "configurations"], "all images, sizes, orders and repetitions",
 "Moments of one 8x8 image and basis matrices of size 8 for six low orders are compared with constants; other sizes, orders and symmetries are not.",
 ["zernike/src/calc.rs", "zernike/src/lib.rs", "image-features/src/lib.rs", "utils/src/math.rs"],
 [("moment sum", "zernike/src/calc.rs:8"), ("radial polynomial", "zernike/src/calc.rs:38"), ("polar grid", "zernike/src/calc.rs:64"), ("order and repetitions", "zernike/src/lib.rs:31")],
 None, ["image_features::calculate_features", "zernike::calc::calculate_zernike_image_moment", "zernike::calc::get_zernike_matrix"])

prop("C18", "Results depend on the arguments alone, not on history",
 "Every library operation (watermarking, authenticating, embedding, extracting, encoding, decoding, quantising, restoring, signing, verifying, computing features) returns the same result for the same arguments however often, in whatever order with other calls, and from however many threads at once it is called, refused calls in between included.",
 ["histories", "schedules"], "all sequences and interleavings of calls with all argument mixes",
 "Each test makes one call of each kind with one set of arguments; state carried between calls (a cache, a buffer, a counter) is never exercised.",
 ["watermarking/src/lib.rs", "watermarking/src/process.rs", "embedding/src/lib.rs", "encoding/src/lib.rs", "three-bit-quantization/src/lib.rs", "signature/src/lib.rs", "image-features/src/lib.rs", "zernike/src/calc.rs"],
 [("all operations take their inputs by value or shared reference and keep no state", "watermarking/src/process.rs:17")],
 None, ["watermarking::watermark", "embedding::embed", "embedding::extract", "encoding::encode", "encoding::decode", "signature::sign"])

prop("C19", "The browser entry point returns source and marked pixels",
 "For every blob in a supported image format (GIF, JPEG, PNG, TIFF, BMP), the browser entry point reports the format found in the blob itself, the source model holds the decoded picture's width, height and row-major RGBA bytes (samples of 16 bits become the nearest of 8), and the watermarked model holds the same for that picture watermarked with the given depth and step and eleven features. Models and processes return through each getter what was constructed or last set.",
 ["inputs", "configurations", "histories"], "all blobs of the five formats and colour types, all parameters, all sequences of setter and getter calls",
 "The five tests call only the private format detection on five tiny images and check size and format.",
 ["web/src/lib.rs", "web/src/image_model.rs", "web/src/watermarking_process.rs"],
 [("entry point", "web/src/lib.rs:25"), ("pixel export", "web/src/lib.rs:46"), ("format detection", "web/src/lib.rs:66"), ("models", "web/src/image_model.rs:12")],
 [("models", "pixel data, sizes and format handed to the page", "web/src/watermarking_process.rs:6")],
 ["web: get_watermarking_process (built natively against stand-ins for js-sys and wasm-bindgen)"])

prop("C20", "A mark survives disturbed pixels",
 "After a payload was embedded in an image with headroom (see C01) at a depth above 2^(levels+1), the pixels may change in any way: as long as the sum of every block that carries a bit moved, divided by 2^levels, by less than a quarter of the depth less half of 2^levels, extraction still yields exactly the payload, whatever happened to the pixels within the blocks and to the blocks that carry nothing. The same holds for larger changes that leave every such coefficient on its side of the nearest multiple of the depth. In a domain with an error-correcting code up to two coefficients of each codeword may be lost altogether.",
 ["inputs", "fault_sequences"], "all marked images, all disturbances of their pixels within the stated tolerance, all choices of at most two lost coefficients per codeword",
 "No test changes a pixel of a marked image before reading it back.",
 ["embedding/src/lib.rs", "embedding/src/io/steganography.rs", "encoding/src/lib.rs"],
 [("side of the nearest multiple", "embedding/src/io/steganography.rs:137"), ("bit-flipping decoder", "encoding/src/lib.rs:133"), ("extraction", "embedding/src/lib.rs:62")],
 [("approximation band", "the block averages that carry the bits", "embedding/src/lib.rs:41")],
 ["embedding::embed", "embedding::extract"])

prop("C21", "Generated key pairs sign and verify",
 "Every generated key pair is two texts of 64 lower-case hexadecimal digits, the 32-byte private key and the public key that belongs to it. What is signed with a pair verifies under its public key for exactly these data, and under no other generated public key nor the built-in one. No two generated pairs share a private or a public key, whichever thread or process made them.",
 ["inputs", "schedules", "histories"], "all generated pairs, from any number of threads and processes, and all data",
 "Two tests generate one pair each; they look at the lengths of the texts and at one signature, so a weak, repeated or mismatched key can pass.",
 ["signature/src/keypair.rs", "signature/src/lib.rs", "utils/src/format.rs"],
 [("key generation", "signature/src/keypair.rs:7"), ("signing", "signature/src/lib.rs:19"), ("verification", "signature/src/lib.rs:34")],
 None, ["signature::keypair::generate", "signature::sign", "signature::verify"],
 "re-export of the private module's function under cfg(sia_verif)")

prop("C22", "Factorials and seeded random numbers are right",
 "The factorial of every whole number is exact up to 18 and correct to one part in 2^40 up to 170; for other arguments above -1 it is the gamma function shifted by one: f(x+1) = (x+1) f(x) to within a few millionths and the known values between 0 and 1 to within a few units of 10^-9. The pseudo-random source is fixed by its seed: the n-th number drawn after seeding depends on the seed and n alone, whatever was drawn before, from this or any other source, and whether as a unit number or from an interval. Unit numbers lie in [0, 1), numbers from an interval [a, b] are the unit numbers stretched to it (a + u (b - a), also where b is below a); over 2000 draws every tenth of the unit interval gets between half and double its share (seeds below 2^31).",
 ["inputs", "histories"], "all arguments in the stated ranges, all seeds, all orders of seeding and drawing from several sources",
 "The tests try the factorials of 0 to 4 and four other arguments, and only look whether a hundred numbers of one seed lie within their interval.",
 ["utils/src/math.rs", "utils/src/pseudo_random.rs"],
 [("factorial", "utils/src/math.rs:3"), ("random source", "utils/src/pseudo_random.rs:20")],
 [("seed", "the only state of a source", "utils/src/pseudo_random.rs:8")],
 ["utils::math::factorial", "utils::pseudo_random::Generate"])

prop("C23", "The page shows the picture chosen last",
 "Once the library and the built-in picture are loaded, the page shows, for one picture, its format in capitals, its width and height and two canvases of that size that hold exactly the source pixels and the marked pixels the library returns for the picture's bytes with depth 500 and step 1. The picture shown is the built-in one until another was chosen; when the file chosen last has been read, and it is a picture, whatever its media type, size or name, it is shown. In whatever order files are read, a file chosen earlier never replaces one chosen later, and a file that cannot be read, or is no picture, or a dialog closed without a choice, leaves what is shown as it was.",
 ["inputs", "schedules", "histories"], "all files, all orders of choosing files and of the ends of reading them, good or bad",
 "The page has one test, which looks for the word Loading; nothing exercises overlapping reads, media types or redrawing.",
 ["src/Content/Content.tsx", "src/Content/utils.ts", "src/Canvas/Canvas.tsx", "src/WatermarkingPreview/WatermarkingPreview.tsx"],
 [("choosing and showing", "src/Content/Content.tsx:41"), ("reading files", "src/Content/utils.ts:51"), ("drawing", "src/Canvas/Canvas.tsx:19")],
 [("watermarkingProcess", "what is shown", "src/Content/Content.tsx:26")], ["page events and what the page shows"])

prop("C24", "How a matrix lies in memory does not matter",
 "Embedding, extracting, computing features and moments, and the wavelet transform give the same result for equal matrices, however their elements lie in memory: row by row, column by column, in opposite order, as part of a larger buffer or with gaps, and in any combination of these. What one operation returns may be handed to the next as it is.",
 ["inputs"], "all memory layouts of all matrices",
 "The tests build every matrix row by row from nested lists.",
 ["embedding/src/lib.rs", "embedding/src/haar/mod.rs", "embedding/src/io/steganography.rs", "zernike/src/calc.rs", "image-features/src/lib.rs"],
 [("matrix to coefficients", "embedding/src/lib.rs:37"), ("transform of rows and columns", "embedding/src/haar/mod.rs:18"), ("sum over pixels", "zernike/src/calc.rs:8")],
 [("layout", "strides and offset of the matrix handed in", "embedding/src/lib.rs:28")],
 ["embedding::embed", "embedding::extract", "image_features::calculate_features", "zernike::calc::calculate_zernike_image_moment"])

prop("C25", "Zernike moments of any order and repetition are complex moments",
 "For every order n and repetition m (0 <= m <= n, of the same parity) the basis matrix of side N > 1 holds, at row x and column y (counted from 1), the conjugate of R(r) e^(i m theta) at the point ((2x-1-N) + i (2y-1-N)) / ((N-1) sqrt 2), R being the Zernike radial polynomial of n and m; a negative repetition gives the matrix of its absolute value. The moment of an image is (n+1)/pi times the sum of pixel times basis value divided by the number of pixels, the phase included, an image that is not square centred (rounding down) in the square of its longer side. Hence, up to floating-point rounding, a quarter turn multiplies a moment by a power of i, mirroring conjugates it, and moments of images that do not overlap add up.",
 ["inputs"], "all orders up to 20, all repetitions, all images",
 "The tests compare six 8 by 8 matrices and five moments of one image.",
 ["zernike/src/calc.rs", "zernike/src/lib.rs", "utils/src/math.rs"],
 [("moment", "zernike/src/calc.rs:8"), ("radial polynomial", "zernike/src/calc.rs:53"), ("basis matrix", "zernike/src/calc.rs:76")],
 [("basis matrix", "depends on order, repetition and side alone", "zernike/src/calc.rs:77")],
 ["zernike::calc::calculate_zernike_image_moment", "zernike::calc::get_zernike_matrix"])

prop("C26", "What the command line has reported is complete, whatever goes wrong",
 "The tool reports each output on standard output, in the order of the inputs, with its path, the channels of input and output and the time taken (nanoseconds, microseconds and milliseconds as whole numbers rounded down, seconds with two decimals below ten, whole seconds from there). Whenever it ends - by itself, killed at any point, or because opening, reading or writing a file fails - every output it has reported is complete, the output of the next input is the only other file that may be in doubt, and everything else is as it was; it ends with success only if every output is complete. Reads and writes that take only a part of what was asked for change nothing.",
 ["inputs", "crash_points", "fault_sequences"], "all argument lists, crash points and failing reads, writes and opens of files",
 "The command line has no test at all.",
 ["cli/src/main.rs", "cli/src/timer.rs"],
 [("writing and reporting", "cli/src/main.rs:28"), ("time shown", "cli/src/timer.rs:12")],
 None, ["command line"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
