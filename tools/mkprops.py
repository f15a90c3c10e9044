#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the property texts are edited)."""
import json, os
H = "include/colorsystem.hpp"
J = "ext/picojson.h"
P = []
def p(id, title, statement, over, qtext, why, mech, files=(H,), state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

p("C01", "Every transfer curve is undone by its inverse",
  "For every transfer characteristic (linear, pure gamma, sRGB, BT.709, ST 2084, S-Log, S-Log2, S-Log3, HLG), encoding any scene value in the curve's nominal range and decoding the result returns that value to single-precision accuracy. The same holds for decoding and then encoding any signal between the curve's black code and its peak code. The only slack is the tiny mismatch that BT.709's published rounded constants leave at the joint of its two segments.",
  ["inputs"], "all transfer types x all single-precision scene values of the nominal range (sRGB, BT.709: 0..1; ST 2084: 0..100; S-Log, S-Log2: 0..10; S-Log3: 0..40; HLG: 0..12; gamma: 0..100 with exponents 0.25..8) and all single-precision signals between black and peak code",
  "The tests round-trip three values for three of the nine curves; S-Log, S-Log2, S-Log3, ST 2084 and gamma are never executed.",
  [("encoders/decoders of class OTF", f"{H}: OTF::Y_to_*, OTF::*_to_Y, gamma, degamma"), ("dispatch", f"{H}: OTF::toScreen, OTF::toScene")],
  observe=["OTF::toScreen", "OTF::toScene"])

p("C02", "Transfer curves equal their published definitions and saturate as stated",
  "For every finite input each encoder and decoder returns, to single-precision accuracy, the value defined by its standard: IEC 61966-2-1 sRGB, BT.709, ST 2084 (full range, 1.0 = 100 cd/m2), BT.2100 HLG (scene 0..12), Sony S-Log/S-Log2/S-Log3, power-law gamma. Outside the nominal range sRGB and BT.709 clamp to 0..1 in both directions, the ST 2084 encoder clamps to 0..1 and its decoder gives 0 for signals below 0, HLG maps negatives to 0 in both directions, the S-Log encoder clamps the scene value to 0..10 and the S-Log2 decoder never returns less than 0.",
  ["inputs"], "all nine types, both directions, every single-precision number of the stated domain (ST 2084 decoder up to 1; S-Log* decoders 0..1.2, S-Log3 from -0.05; gamma inputs >= 0), including denormals, breakpoints and their neighbours",
  "Only three points of three curves are compared with literal values; segment breakpoints, clamps and the log curves are untested.",
  [("piecewise curve definitions and constants", f"{H}: class OTF"), ("S-Log2 IRE/code-value scaling", f"{H}: OTF::IRE_to_CV_SLog2, CV_to_IRE_SLog2")],
  observe=["OTF::Y_to_*", "OTF::*_to_Y", "OTF::toScreen", "OTF::toScene"])

p("C03", "Transfer curves never reverse the order of light levels and stay finite",
  "Over its whole domain each encoder and each decoder is non-decreasing: more scene light never yields a smaller signal and a larger signal never decodes to less light, apart from single-precision rounding and the less than 1e-4 step at the BT.709 joint. Every result for an in-range input is finite, encoded sRGB/BT.709/ST 2084 signals lie in 0..1 and decoded light is never below the curve's value for its lowest signal.",
  ["inputs"], "all ordered pairs of single-precision inputs of the domain (decided through the running maximum over all of them in increasing order), all nine types, both directions",
  "Monotonicity is a relation between every pair of inputs; tests look at isolated points.",
  [("segment thresholds chosen to join the pieces", f"{H}: class OTF"), ("clamps", f"{H}: OTF::Y_to_sRGB, Y_to_BT709, Y_to_ST2084")],
  observe=["OTF::toScreen", "OTF::toScene"])

p("C04", "A transfer function acts on each channel alone, with the requested curve",
  "Converting a colour to screen or to scene applies the curve of the requested type to the first, second and third channel independently and leaves their order unchanged, so a channel's result depends only on that channel's input. The linear type returns the colour unchanged, and the gamma argument influences the pure-gamma type only (encoding with 1/g, decoding with g; left out, it is 1).",
  ["inputs", "configurations"], "all types x both directions x all triples over an alphabet of scene/signal values containing every breakpoint, clamp and sign case x several gamma arguments",
  "Tests use equal or monotone channel triples for three types with the default gamma; no test varies one channel while holding the others.",
  [("type switch, per-channel construction", f"{H}: OTF::toScreen, OTF::toScene")], observe=["OTF::toScreen", "OTF::toScene"])

p("C05", "XYZ, Yxy and Yuv convert into each other without loss",
  "For every colour whose luminance is not negligible against X+Y+Z, converting XYZ to Yxy or to (CIE 1960) Yuv and back returns the colour, luminance passes through unchanged, the chromaticities equal the CIE definitions and do not depend on the colour's intensity. A colour with |X+Y+Z| below 1e-8 gets the D65 chromaticity (0.3127, 0.3290), and a chromaticity with |y| below 1e-8 converts to X = Z = 0, so no NaN or infinity appears.",
  ["inputs"], "all XYZ triples over a dense logarithmic/linear lattice from 0 and 1e-9 to 1e4 including negative components, all chromaticities (x, y) on a dense grid, static and member forms, every overload",
  "Seven hand-picked colours are compared; the black and y = 0 guards, Yuv and intensity invariance are untested.",
  [("guarded projection", f"{H}: Tristimulus::x_from_XYZ, y_from_XYZ, X_from_Yxy, Z_from_Yxy"), ("uv maps", f"{H}: Tristimulus::u_from_xy .. y_from_uv, YxyToYuv, YuvToYxy, toYuv, fromYuv")],
  observe=["Tristimulus::toYxy/fromYxy/toYuv/fromYuv"])

p("C06", "CIELAB matches CIE 1976 and round-trips below the reference white",
  "For every reference white with positive components and every colour with components between 0 and the white's, the L*a*b* values equal the CIE 1976 definition and converting back returns the colour; the white maps to (100, 0, 0) and black to (0, 0, 0). Components above the white's are treated as equal to it, in both directions, and without an explicit white the D50 white (0.9642, 1, 0.8249) is used.",
  ["inputs", "configurations"], "all whites in {D50 default, all built-in illuminants, extreme whites} x all colours on a dense lattice of fractions of the white incl. both sides of the 216/24389 joint; all Lab triples whose decoded components lie in 0..white",
  "Two colours with tolerance 0.1 are tested, forward only; the inverse, the linear segment and the clamp are never executed.",
  [("piecewise cube-root curve and inverse", f"{H}: Tristimulus::CIELAB_curve, CIELAB_decurve"), ("toCIELAB/fromCIELAB", f"{H}: class Tristimulus")],
  observe=["Tristimulus::toCIELAB", "Tristimulus::fromCIELAB"])

p("C07", "HSV is a lossless, 360-degree periodic view of RGB",
  "For every RGB colour with non-negative components, value is the largest component, saturation is (max-min)/max (0 for black), hue lies in 0..360 and follows the hexagonal definition (0 for greys), and converting back returns the colour. Converting from HSV accepts any finite hue, treats hues 360 degrees apart alike, and for saturation and value in 0..1 yields components in 0..1 with the requested value and saturation; the arctangent variant has the same saturation and value and as hue the colour's polar angle about the grey axis, within 1.2 degrees of the hexagonal one.",
  ["inputs"], "all RGB triples on a dense lattice incl. ties and zeros, HDR values up to 1e4, all (h, s, v) with hue from a dense grid plus every single-precision hue of -1080..1080 and all magnitudes up to the largest float",
  "No test touches HSV at all.",
  [("hue normalisation", f"{H}: Tristimulus::mod360"), ("sector selection", f"{H}: Tristimulus::toHSV, fromHSV, toHSV_atan")],
  observe=["Tristimulus::toHSV", "fromHSV", "toHSV_atan"])

p("C08", "OKLab matches its published definition and round-trips",
  "For every XYZ colour (components up to 1e30 in magnitude), including ones with negative components, XYZ to OKLab equals Ottosson's published transform and OKLab to XYZ equals its inverse, so a round trip in either order returns the starting colour. D65 white has lightness 1 and no chroma, and results are never NaN.",
  ["inputs"], "all XYZ triples of a dense signed lattice (magnitudes 0, 1e-6 .. 100) and all OKLab triples of a dense lattice L 0..5, a, b -2..2",
  "Four colours with tolerance 0.1 (one of which fails today); no round trip, no negative cone responses.",
  [("two 3x3 matrices and cube root", f"{H}: XYZ_to_OKLAB, OKLAB_to_XYZ")], observe=["XYZ_to_OKLAB", "OKLAB_to_XYZ"])

p("C09", "ICtCp matches BT.2100/Dolby and round-trips inside its range",
  "For every XYZ colour (1.0 = 100 cd/m2) whose cone responses lie in 0..100, XYZ to ICtCp equals the published LMS matrix, PQ curve and ICtCp matrix, and converting back returns the colour to single-precision PQ accuracy. Equal cone responses give Ct = Cp = 0, intensity grows with luminance, and cone responses below 0 or above 100 saturate, so forward results are finite for every finite colour.",
  ["inputs"], "all cone-response triples on a dense logarithmic lattice 0..100 mapped to XYZ, all XYZ triples on a signed lattice for saturation/finite-ness",
  "ICtCp is not tested at all.",
  [("HPE matrix, PQ, opponent matrix", f"{H}: XYZ_to_ICtCp, ICtCp_to_XYZ, OTF::Y_to_ST2084, ST2084_to_Y")], observe=["XYZ_to_ICtCp", "ICtCp_to_XYZ"])

p("C10", "Colour-temperature whites follow the Planckian locus, continuously",
  "For every temperature in the supported range (1000..10000 K for the polynomial, 1667..25000 K for the spline form) the returned white has the requested luminance and a chromaticity within the approximation's published accuracy of the blackbody's (polynomial 0.004, spline 0.0006), equal to the published formula, and changes continuously with temperature (no jump at segment boundaries). A white with a Duv offset lies at exactly that distance from the locus point in CIE 1960 uv, perpendicular to the locus, above it for positive and below it for negative offsets, and a zero offset is the locus point itself.",
  ["inputs"], "all single-precision temperatures on a fine grid over the ranges and every float near segment boundaries, luminances 0.01..1000, offsets -0.02..0.02",
  "One temperature (6504 K) is tested with tolerance 0.01; no other segment, no Duv.",
  [("locus approximations", f"{H}: Tristimulus::blackbody_x_approx, blackbody_y_approx, fromPlanckianLocus, fromCT"), ("perpendicular offset", f"{H}: Tristimulus::CCT_x_approx, CCT_y_approx, fromCCT")],
  observe=["Tristimulus::fromCT", "fromPlanckianLocus", "fromCCT"])

p("C11", "Vector, matrix and tristimulus arithmetic is exact linear algebra",
  "Dot product, sum, scaling, element-wise product, matrix times vector, matrix times matrix, matrix sum and scalar product, transpose, determinant, rows, columns, diagonal and array construction give exactly the mathematical result whenever all intermediate values are representable, and otherwise the result within a few rounding errors of its terms. In particular the identity is neutral, (AB)v = A(Bv), (AB)^T = B^T A^T, det(AB) = det(A)det(B), and every static form agrees with its member or operator form.",
  ["inputs"], "all 3x3 matrices over {-1,0,1} (and all ordered pairs of them in the thorough tier; all pairs from a generating set in the quick tier), all vectors over a small integer alphabet, large and fractional dyadic scalings, every combination of two and three entries that are real numbers of a fine grid, and real colours",
  "Tests exercise matrices only through two gamut products with one expected value each.",
  [("index helpers and products", f"{H}: Matrix3::M, I, mul, apply, transpose, det, add, div, row, col, diag, fromArray"), ("tristimulus operators", f"{H}: Tristimulus::scale, add, mul, dot, apply")],
  observe=["Matrix3", "Vector3", "Tristimulus"])

p("C12", "Matrix inversion really inverts every non-singular matrix",
  "For every 3x3 matrix that is not close to singular, its inverse multiplied with it from either side is the identity within the accuracy its condition number allows, and inverting twice returns the matrix. The cross-talk matrix with parameter r has rows summing to 1 and its dedicated inverse undoes it for every r except 1/3.",
  ["inputs"], "all 3x3 matrices over {-2,-1,0,1,2} (1.9 million), all ternary ones at eleven magnitudes and with badly scaled rows or columns, all small perturbations of signed permutations and rotations; all r on a dense grid in -10..10",
  "Inverse matrices are tested for two gamuts.",
  [("adjugate over determinant", f"{H}: Matrix3::invert, det"), ("cross-talk", f"{H}: Matrix3::crosstalk, crosstalkInvert")], observe=["Matrix3::invert", "Matrix3::crosstalkInvert"])

p("C13", "A gamut built from primaries and white has exactly those",
  "For every set of non-collinear primaries and every white chromaticity with non-zero y, RGB (1,1,1) maps to that white with luminance 1, each pure primary maps to a colour of that primary's chromaticity, and XYZ to RGB is the inverse of RGB to XYZ. The accessors report the red, green and blue chromaticities (x, y, z summing to 1) and the white's XYZ that were put in; a gamut built from an XYZ-to-RGB matrix uses exactly that matrix and its inverse.",
  ["inputs", "configurations"], "all combinations of red, green, blue primaries and white from grids over the chromaticity plane (including primaries outside the spectral locus and with negative y), all RGB lattice colours",
  "Only the built-in AdobeRGB and ACES matrices are compared with literals.",
  [("primaries to matrix", f"{H}: Gamut::primMat, mulDiag, fromPrimaries, constructors"), ("accessors", f"{H}: Gamut::primaryVector, primaryMatrix, primaryWhite/Red/Green/Blue")], observe=["Gamut"])

p("C14", "Built-in gamuts and illuminants are the published ones and interconvert",
  "Every built-in gamut (AdobeRGB, Rec.709, Rec.2020, DCI-P3, S-Gamut, S-Gamut3.Cine, ACEScg, ACES2065, Bradford LMS, XYZ) has its standard's primaries and white and its own name, and every built-in illuminant (A, B, C, D50, D55, D60, D65, D75, E, F2, F7, F11) has its published XYZ. For all gamuts A, B, C the conversion A to A is the identity, A to B followed by B to C equals A to C, and converting a colour equals going through XYZ.",
  ["configurations", "inputs"], "all 10 gamuts, all ordered pairs and triples of them, all 12 illuminants, all RGB triples of a signed lattice",
  "One gamut pair, two gamuts and four of twelve illuminants are tested.",
  [("constants", f"{H}: AdobeRGB .. XYZ, Illuminant_*"), ("conversion", f"{H}: GamutConvert, Gamut::toXYZ, fromXYZ")], observe=["GamutConvert", "Gamut::toXYZ/fromXYZ", "Illuminant_*"])

p("C15", "Bradford adaptation maps white to white and composes",
  "For all whites with positive cone responses the Bradford matrix from one white to another maps the source white to the destination white, equals the published Bradford method, is the identity for equal whites, does not depend on the whites' common intensity, and adapting from A to B and then from B to C equals adapting from A to C (so swapping the arguments gives the inverse).",
  ["inputs", "configurations"], "all ordered pairs of whites from the built-in illuminants and a chromaticity grid at three luminances, all ordered triples of a subset, all pairs of illuminants x all pairs of 14 intensities",
  "One pair of whites is tested with tolerance 0.01.",
  [("von Kries scaling in Bradford LMS", f"{H}: Bradford, LMS")], observe=["Bradford"])

p("C16", "Colour differences UV, E76 and ICtCp behave as metrics",
  "For all colours the u'v'-plane difference, Delta E76 and the ICtCp difference equal the Euclidean distance they define (u,v components; L,a,b components; I, 0.5 T, P components), are never negative or NaN, are zero exactly for identical inputs, symmetric, and satisfy the triangle inequality. The UV difference ignores luminance.",
  ["inputs"], "all ordered pairs (formula, symmetry) and triples (triangle inequality) of colours over signed lattices, each component over a fine float lattice, pairs of shapes at powers of two from 2^-60 to 2^60",
  "None of the three differences is tested.",
  [("Delta class", f"{H}: Delta::UV, Delta::E76, Delta::ICtCp")], observe=["Delta::UV", "Delta::E76", "Delta::ICtCp"])

p("C17", "CIEDE2000 equals the published formula for every pair of colours",
  "For all pairs of L*a*b* colours and positive parametric weights the result equals the CIEDE2000 formula (Sharma et al.), including achromatic colours, hue differences across 0/360 and near 180 degrees (for exactly opposite hues, where the formula jumps, either side's value); it is symmetric, zero for identical colours, never negative and never NaN. The weights default to 1 and scale the lightness, chroma and hue terms respectively.",
  ["inputs"], "all ordered pairs from a signed Lab lattice, all pairs of hues in half-degree steps x chroma combinations, hues near 0/360 and opposite in 0.01 degree steps, lightness -20..2000 and chroma to 2800, small displacements down to 1e-4, a lattice of weight triples, Sharma's 34 published pairs",
  "Two of Sharma's 34 pairs, both blue, are tested with default weights.",
  [("CIEDE2000", f"{H}: Delta::E00")], observe=["Delta::E00"])

p("C18", "Spectra are sampled by linear interpolation and constant extension",
  "Reading a spectrum at any wavelength between its first and last sample returns the linear interpolation of the two neighbouring samples (the sample itself at a sample position), outside it the nearest end sample. Building a spectrum from any table of at least two samples over any range with that rule is exact for constant and linear data and is the identity for a 380..779 nm 1 nm table. Nothing outside the table is ever read, whatever the wavelength and range (infinite and not-a-number included).",
  ["inputs", "configurations"], "all wavelengths on a 1/64 nm grid from 280 to 880 nm, tables of every size of a list from 2 to several thousand samples over many ranges, one-hot data at every index, constant, ramp and irregular data, read at 19 positions per interval and far outside; buffers refilled in place",
  "Spectra are sampled at one wavelength (555 nm) and resampling from a table is never executed.",
  [("interpolating fetch", f"{H}: Spectrum::fetch, lerp"), ("resampling constructor", f"{H}: Spectrum(const float*, int, lo, hi)")], observe=["Spectrum::fetch", "Spectrum constructor"])

p("C19", "Spectral arithmetic is element-wise and observers integrate linearly",
  "Scaling, adding and multiplying spectra act wavelength by wavelength on all 400 samples, sums and dot products run over all 400 samples, and the constant spectrum has that value everywhere. Each built-in observer's tristimulus of a spectrum is linear in it, maps the equal-energy spectrum to (1,1,1), equals the colour-matching-function-weighted sum over the function's own sum per channel, and the tristimulus of a reflectance under a light equals that of their product spectrum.",
  ["inputs", "configurations"], "all 400 one-hot spectra and all ordered pairs of them (bilinear maps are determined by their values on a basis), all built-in spectra, scalings over a lattice, all three observers",
  "The tests integrate three spectra with one observer at tolerance 1e-2..1e-5.",
  [("element-wise loops", f"{H}: Spectrum::mul, add, E, sum, dot, dot3"), ("observer normalisation", f"{H}: Observer")], observe=["Spectrum", "Observer::fromSpectrum", "Observer::fromReflectanceAndLight"])

p("C20", "Blackbody spectra obey Planck's law",
  "For every temperature from 500 to 50000 K and every wavelength from 100 nm to 10 um the radiance equals Planck's law in W/(m2 sr nm) within 1e-4 relative wherever that exceeds 1e-30, is positive there and never negative or NaN, and never decreases with temperature; the blackbody spectrum holds the radiance of 380+i nm at sample i. Consequently each spectrum has a single maximum located where Wien's displacement law puts it.",
  ["inputs"], "all temperatures 500..50000 K in 25 K steps (thorough 10 K) x all wavelengths 100 nm..10 um in 2.5 nm steps (thorough 1 nm), every integer temperature x the visible range in 10 nm steps, fine geometric temperature steps",
  "One temperature and wavelength is tested with tolerance 0.4 percent.",
  [("Planck radiance", f"{H}: Spectrum::planck, Spectrum::blackbody")], observe=["Spectrum::planck", "Spectrum::blackbody"])

p("C21", "Shipped reference spectra and chart colours are complete and correct",
  "The built-in tables (CIE 1931, Judd-Vos and CIE 2012 colour-matching functions, D65, the 99 TM-30-15 samples, the 24 Macbeth patches) hold all 400 one-nanometre samples with their published values (Macbeth data covers 380..730 nm and fades to zero at 740); colour-matching functions and D65 are non-negative and reflectances lie in 0..1. Collections list their members in published order, and the chart reference colours under a light and observer are, patch by patch in that order, the tristimulus of patch reflectance under that light.",
  ["inputs", "configurations"], "every sample of every built-in table (132 x 400 + 3 x 3 x 400), every element of both collections, all lights in a set x all three observers x 24 patches",
  "The chart test has no assertion at all; only sums of CIE 1931 and D65 are constrained by other tests.",
  [("data tables", f"{H}: CIE1931_*, CIE2012_*, CIE1931_JuddVos_*, CIE_D65, TM_30_15::CES*, Macbeth::Macbeth*"), ("collections", f"{H}: TM_30_15::sample, Macbeth::Patch, Macbeth::reference")], observe=["tables", "Macbeth::reference"])

p("C22", "The linear solver returns the least-squares solution and reports failure",
  "For every system with at least as many equations as unknowns and entries that are zero or between 1e-15 and 1e15 in magnitude the solver returns success and the least-squares solution; when the columns are linearly dependent it returns the smallest such solution (singular values below 1e-5 of the largest, or below the fraction of it that the caller states, count as zero), and for consistent systems the equations are satisfied. The singular value decomposition it uses reproduces the matrix as U*diag(w)*V^T with non-negative w and orthonormal V, a system with fewer equations than unknowns is reported as an error by a negative return value, and whatever the entries are, infinities and NaN included, the solver returns without touching anything but the solution.",
  ["inputs"], "all matrices with entries in {-1,0,1} up to 4x3 (and {-2..2} up to 3x3), all right-hand sides over a small alphabet, badly scaled variants, structured matrices up to 5000 rows and up to 24 unknowns, all rank patterns, explicit cut-off fractions around every singular value",
  "The solver is not tested at all.",
  [("SVD", f"{H}: SOLVER::svdcmp"), ("back substitution", f"{H}: SOLVER::svbksb"), ("driver with tolerance", f"{H}: SOLVER::solve")], observe=["SOLVER::solve", "SOLVER::svdcmp"])

p("C23", "The colour-correction matrix is recovered from any sufficient patch set",
  "When target colours are an exact linear image of at least three linearly independent patch colours, the corrector returns that 3x3 matrix; otherwise, given at least two patches, it returns the matrix minimising the summed squared error, whatever the number and order of patches. The one-argument form uses the Macbeth reference under the given light and observer as target, and the gamut made from measured patches converts those measured values to the chart's reference XYZ.",
  ["inputs", "configurations"], "all 3x3 integer matrices over {-1,0,1} (19683) x all patch sets from a family of bases, permutations and redundant sets of 3..24 patches; inconsistent targets against an independent normal-equation solution; 2 lights x 3 observers",
  "The corrector is not tested at all.",
  [("system set-up", f"{H}: Corrector::solve"), ("gamut from chart", f"{H}: Corrector::makeGamut")], observe=["Corrector::solve", "Corrector::makeGamut"])

p("C24", "The memory stream behaves like a random-access byte file",
  "After any sequence of byte/block reads and writes, seeks, alignment and absolute get/put, the stream's contents, size, cursor and end-of-file state equal those of a growable byte file: writing at the cursor stores the bytes and advances past them (overwriting or extending), writing beyond the end zero-fills the gap, reading returns and consumes only existing bytes (a byte read at the end gives 0 and does not move), absolute access never moves the cursor or disturbs other bytes. Initialising a stream, also one already used, gives it the stated size and data, the cursor at the start and little-endian byte order. Seeks go to the given offset from the start, the cursor, or (counting back) from the last byte, and marks return to the marked place.",
  ["histories"], "all operation sequences up to the explored depth over an alphabet of about 40 operations, from empty and preloaded streams, with explicit-state deduplication on (contents, cursor, endianness); seeks outside 0..size excluded (precondition)",
  "No test uses the stream; its faults need a sequence such as write, seek back, overwrite, read.",
  [("cursor and buffer updates", f"{H}: MemoryStream::fseek, read_at, write_at, read, write, getUint8, putUint8, get_at, put_at, align")],
  state=[("ptr_", "cursor", f"{H}: MemoryStream"), ("buffer_", "contents", f"{H}: MemoryStream")], observe=["MemoryStream public operations"])

p("C25", "Typed stream values survive writing and reading in either byte order",
  "Every integer (8 to 64 bit, signed and unsigned), float, double and string written to the stream and read back with the same type and byte order returns the identical value and consumes exactly the bytes written; a fixed-length string field occupies exactly its length, terminator included. The byte layout is the two's-complement or IEEE pattern in the selected order, read and write byte orders are independent settings, and a back-patched 32/64-bit pointer field holds the stream size at patch time in the write order, whatever it held before, without moving the cursor.",
  ["inputs", "histories"], "all 8- and 16-bit values, all 32-bit patterns on a dense lattice (every pattern in the thorough tier), 64-bit patterns from byte alphabets, all strings up to length 4 over a byte alphabet, both byte orders, all sequences of three typed items",
  "No test uses the stream.",
  [("typed accessors", f"{H}: MemoryStream::get*/put*, putPointer*, adjustPointer*"), ("byte order flags", f"{H}: MemoryStream::readEndian_, writeEndian_")], observe=["MemoryStream typed operations"])

p("C26", "Results depend only on arguments, never on earlier calls",
  "Every computation of the colour library returns bit-identical results for the same arguments no matter which library calls, with which arguments, were made before, leaves its inputs unchanged, and writes nothing to standard output or standard error. No sequence of calls changes the built-in constants.",
  ["histories"], "all call sequences up to length 3 over an alphabet of 87 operations covering every public operation (2415 with their argument sets); states are deduplicated on the library's writable static memory, which closes the exploration for arbitrary length when no call changes it; runs of 70000 equal calls and of 3000 different argument sets per operation",
  "Each test calls functions in one fixed order.",
  [("absence of mutable state", f"{H}: whole header"), ("by-value results", f"{H}: whole header")], observe=["all public operations", "stdout/stderr"])

p("C27", "Concurrent use of the library from several threads is safe",
  "Any two computations of the colour library running at the same time in different threads, on their own arguments or on shared constant objects, return the same results as when run one after the other. This holds for every interleaving, because no computation writes to memory it shares with another.",
  ["schedules"], "all pairs of 87 operations with equal and with different arguments, all interleavings of their accesses to shared writable memory with at most 2 preemptions (1 when an execution has more than 60 such accesses)",
  "The tests are single-threaded.",
  [("absence of shared mutable state", f"{H}: whole header"), ("constant-initialised function statics", f"{H}: Spectrum::planck")], observe=["all public operations"])

p("C28", "Any chain of colour-space conversions describes the same colour",
  "Starting from any colour, any sequence of conversions between supported representations that can hold it (XYZ, Yxy, Yuv, CIELAB, OKLab, ICtCp, HSV, linear RGB of every built-in gamut, and screen-encoded RGB of every transfer type) that returns to XYZ gives the starting colour back within accumulated single-precision error; linear RGB, XYZ, Yxy, Yuv and OKLab hold every colour, saturated ones outside a gamut included, HSV and the encoding curves need non-negative components. Hence two different conversion routes between the same two representations agree.",
  ["histories", "inputs"], "all conversion paths up to the explored length in the conversion graph x a lattice of in-gamut colours; the state is (representation, values), checked against a double-precision reference model of each representation after every step",
  "Tests never chain two conversions.",
  [("all conversions", f"{H}: Tristimulus, Gamut, OTF, XYZ_to_OKLAB, XYZ_to_ICtCp and inverses")], observe=["all conversion functions"])

p("C29", "The bundled JSON parser accepts JSON texts and rejects everything else",
  "For every input text the parser either returns no error and the value the text denotes, or a non-empty error; valid JSON values (with surrounding whitespace and trailing data after the first value ignored) are never rejected and texts with an unterminated, misspelt or badly nested value, a number beyond the double range (a number is the whole run of number characters) or more than 1000 nesting levels are never accepted. Escapes and surrogate pairs decode to UTF-8, duplicate keys keep the last value, error messages carry the number of the line with the offending character, and no input makes it read outside the text, hang or crash.",
  ["inputs"], "all sequences of up to 6 of 14 and up to 7 of 11 JSON tokens, all byte strings up to length 2 (3 thorough), all string bodies and number spellings up to length 6, all \\uXXXX escapes and surrogate boundaries, all single-character changes and truncations of 20 documents, nesting 0..1100 and up to 10^6, against an independent recogniser and evaluator; number spellings outside JSON that strtod takes (01, 1., -.5) may be taken or left",
  "The bundled parser is not compiled by any test.",
  [("recursive descent parser", f"{J}: _parse, _parse_array, _parse_object, _parse_string, _parse_codepoint, _parse_number, class input")], files=(J,), observe=["picojson::parse"])

p("C30", "JSON values survive serialisation and copying unchanged",
  "Serialising any value, compactly or prettified, yields a text that parses back to an equal value, compact output is JSON without control characters, and prettified output is the compact one with one item per line, indented by two blanks per nesting level; numbers keep their exact double value. Copies are deep and independent, assignment (including self-assignment and assigning a value's own child) and swap preserve contents, a moved-to value has the source's contents, equality is structural, lookups of absent members or indices give null, a value counts as true unless it is null, false, 0 or the empty string, asking for the wrong type throws, and so does making a number from infinity or NaN.",
  ["inputs", "histories"], "all value trees of depth 2 (3 thorough) over 20 leaves, all sign/exponent x structured mantissa doubles, all byte strings up to length 2 (3), all pairs of depth-1 values for equality, all sequences of 4 (5) of 31 copy/assign/move/swap/alias/modify operations on two values",
  "The bundled JSON code is not compiled by any test.",
  [("serialiser", f"{J}: value::_serialize, serialize_str, to_str"), ("value semantics", f"{J}: value copy constructor, operator=, swap, get, contains, operator==")], files=(J,), observe=["picojson::value"])

p("C31", "The compile-time square root is accurate and total",
  "For every finite non-negative single-precision number the library's constexpr square root terminates and returns the square root within 2 units in the last place (within 1e-6 relative for denormals it is only required to be finite and non-negative); for negative numbers, infinity and NaN it returns NaN.",
  ["inputs"], "all 2^32 single-precision bit patterns (quick tier: every exponent x the top 20 mantissa bits, every float of 1..4, 4096 floats around every power of two)",
  "No test calls it directly.",
  [("Newton iteration with equality stop", f"{H}: util::sqrtf")], observe=["util::sqrtf"])

p("C32", "Photometric quantities follow the luminous efficacy definition",
  "For every wavelength and power, lumens of monochromatic flux equal 683 lm/W times the observer's luminosity function at that wavelength times the watts, candelas of monochromatic radiance are 683 times all three colour-matching values times the radiance, and the per-wavelength tristimulus is the colour-matching values divided by their sums. All three are proportional to power and interpolate between tabulated wavelengths like the functions themselves.",
  ["inputs", "configurations"], "all wavelengths on a 1/64 nm grid 330..830 nm and all floats near tabulated ones x powers of both signs over a lattice from 2^-60 to 2^60 x three built-in observers and a synthetic one",
  "One wavelength (555 nm) and unit power with one observer.",
  [("monochromatic helpers", f"{H}: Observer::lumensFromMonochromaticFlux, candellasFromMonochromaticRadiance, xyz")], observe=["Observer"])

p("C33", "Clamping and ordering helpers bound every component",
  "For all colours and bounds l <= h, clipping puts each component into [l, h] and leaves components already inside untouched; positive() zeroes exactly the negative components; component-wise min and max, the smallest and largest component, and the negative test give the mathematical answer for every order and every tie. Static and member forms agree.",
  ["inputs"], "all triples over an alphabet with ties, denormals, extremes and infinities, all bound pairs from it",
  "None of these helpers is tested.",
  [("helpers", f"{H}: Tristimulus::min, max, min3, max3, clip, positive, hasNegative")], observe=["Tristimulus helpers"])

p("C34", "JSON reading and writing do not depend on the locale or on stream formatting",
  "For every text and every value, parsing and writing give the same result whatever the decimal point, grouping and thread or process locale of the C library, whatever the global C++ locale, and whatever formatting flags, precision or locale the C++ streams carry: numbers always use '.', never grouping, and a text written under one environment reads back to the same value under any other.",
  ["inputs", "configurations"], "all number-token texts up to a length and structured doubles x four decimal-point and grouping conventions (two of C, one of the global C++ locale, and none) x process and thread locale x stream states",
  "No test runs under a locale other than C.",
  [("number output", f"{J}: value::to_str, serialize"), ("number input", f"{J}: _parse_number"), ("streams", f"{J}: operator>>, operator<<")], observe=["picojson::parse", "value::serialize", "operator>>", "operator<<"])

p("C35", "With 64-bit integers enabled, JSON integers are exact",
  "Compiled with PICOJSON_USE_INT64: an integer literal in the signed 64-bit range is held as that integer, is also a number, is written with exactly its digits, reads back equal, and survives copying, moving, swapping, nesting and comparison unchanged; any other number is floating point with the value of its text. Two integers are equal exactly when they are the same number; an integer and a floating-point number when their values are; comparing or inspecting (is, serialize, to_str, evaluate_as_boolean) never changes a value.",
  ["inputs", "histories", "configurations"], "all integers near powers of two and ten and all number texts up to a length, all ordered pairs from 500 numbers, all operation sequences of length 4",
  "The configuration is never compiled by the tests.",
  [("integers", f"{J}: PICOJSON_USE_INT64 branches: value(int64_t), is, get, to_str, _parse"), ("equality", f"{J}: operator==")], observe=["picojson::value"])

p("C36", "Constants and operations work alike in every unit and at any time of a program",
  "Every built-in constant and every operation gives the same result whichever translation unit calls it and whenever it is called: before any dynamic initialiser has run, during static initialisation of any unit in any link order, in main, during static destruction and after it.",
  ["schedules", "configurations"], "every operation and argument set, three translation units, 15 phases, all link orders, two compilers",
  "The tests run inside main of a single program only.",
  [("built-in constants", f"{H}: static constexpr Gamut, Tristimulus, Spectrum, Observer and array constants"), ("operations", f"{H}: all public functions")], observe=["all public operations"])

p("C37", "Results do not depend on how the library is compiled",
  "For all finite arguments every colour operation gives the same result (up to rounding of the mathematical library) and every JSON text reads and writes and every history of JSON value operations runs identically, whichever compiler, optimisation level, language standard the header supports (C++14 and later for colour, C++98 and later for JSON), assertion setting (NDEBUG), character signedness or checked-container mode is used; no operation crashes or depends on undefined behaviour under any of them, for any argument.",
  ["inputs", "configurations"], "13 configurations (thorough 18) of colour operations x all argument sets, special values and 200 further sets each; 36 configurations of JSON x all texts up to a length and all histories of three operations on two values",
  "The tests are built once, with one configuration.",
  [("colour library", f"{H}: all public functions"), ("JSON", f"{J}: language-standard and configuration conditionals")], observe=["all public operations", "picojson::parse", "value::serialize"])

p("C38", "JSON parse contexts get exactly the document's events and stay in control",
  "When a JSON document is parsed into a caller-supplied context, the context is called exactly once per item, in document order, with the right kind and value, element index (counted from 0 per array, also after nested items), member key and closing element count, for every document. A false return from any context callback ends the parse with an error and no further calls; an exception thrown by one passes through unchanged; an item the context reads with the null context is skipped exactly, and one it builds with the default context is complete; the remaining events are as if it had been handled normally. Malformed documents deliver exactly the events of their valid beginning.",
  ["inputs", "fault_sequences"], "all document trees of up to 7 nodes (thorough 8) x one reaction (refuse, throw, skip, build) at every single event, and cut at every byte",
  "The tests never supply a context of their own.",
  [("parser", f"{J}: _parse, _parse_array, _parse_object, _parse_string"), ("contexts", f"{J}: default_parse_context, null_parse_context, deny_parse_context")], observe=["picojson::_parse", "picojson::null_parse_context", "picojson::default_parse_context"])

p("C39", "Running out of memory harms nothing and leaks nothing",
  "If any allocation inside any operation fails, the failure is reported (std::bad_alloc, or the state of the stream being written or read), nothing is leaked or freed twice, arguments and unrelated objects keep their value, an assigned JSON value keeps its old value, a value being parsed into and a memory stream being written to stay usable with a cursor inside the stream and only old, new or zero bytes; the same operation repeated with memory available succeeds with the result it would have had. Moving and swapping JSON values need no memory.",
  ["inputs", "fault_sequences"], "every allocation of 2575 scenarios failing alone, and every pair over two attempts",
  "The tests never make an allocation fail.",
  [("values", f"{J}: value copy constructor, operator=, swap, serialize, parse"), ("streams", f"{H}: MemoryStream::put*, write*"), ("colour", f"{H}: Macbeth::reference, Corrector, SOLVER")], observe=["picojson::value", "picojson::parse", "ColorSystem::MemoryStream", "ColorSystem::Corrector"])

p("C40", "Reading a JSON value stops exactly at its end, so values can follow each other",
  "Reading one value from a text or stream leaves the position (the iterator returned, the position argument, the stream) at the first character after the value, whatever follows, so any number of values written one after another, with or without whitespace between them, are read back one by one and none loses a character. Nothing after the value is looked at, except the single character that ends a number; this holds for pointers, forward and single-pass iterators, streams and validating contexts.",
  ["inputs", "histories"], "all sequences of up to 4 (thorough 5) values and separators, of up to 5 (6) tokens, nine entry points, rows of up to 60 values",
  "The tests read no JSON at all.",
  [("input", f"{J}: class input, getc, ungetc, cur"), ("entry points", f"{J}: parse, _parse, operator>>")], observe=["picojson::parse", "operator>>"])

p("C41", "Constants evaluated by the compiler equal what the program computes",
  "For all arguments, evaluating a library function in a constant expression (which is how the built-in gamuts, whites and observers are made) gives the same value, up to rounding of the mathematical library, as calling it at run time with the same arguments; this holds for vector, matrix and colour arithmetic, chromaticity, CIELAB, HSV and colour-temperature conversions, gamut construction and conversion, spectra sampling and integration and the square root.",
  ["inputs", "configurations"], "24 groups of operations x all combinations of up to 16 values per argument (at most 6,000 per group; thorough 60,000), C++14 and C++17",
  "The tests evaluate few constants and none both ways.",
  [("constexpr functions", f"{H}: all functions declared constexpr")], observe=["all constexpr functions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P), "properties")
