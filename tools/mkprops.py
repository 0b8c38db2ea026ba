"""Source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})
B, S = 'pythonbmp/BITMAPlib.py', 'pythonbmp/'

p('C01', 'An acknowledged save or load is byte-exact, whatever the I/O does',
  'When saving a bitmap returns without an error, the named file holds exactly the saved bytes and no other file has changed; when a load returns an image, it is exactly the bytes of the file. A save or load that storage makes fail raises an error: it is never acknowledged, and it leaks no open file.',
  ['inputs', 'fault_sequences'],
  'Every bit depth, geometry and palette, every file content, and every sequence of short reads and writes, read/write/open/close errors, full disk and bad permissions during the calls.',
  'The tests save and load a few images on a healthy disk; none injects a short write, a full disk or a close error, and none compares every byte for arbitrary geometry.',
  [B],
  [('whole-file read and write of the header-plus-pixels buffer', B + ': loadBMP, saveBMP')])

p('C02', 'A torn, truncated or foreign file is never taken for an image',
  'Loading a file that is cut short of the size its own header declares (by a crash, a full disk or a concurrent writer, at any byte), empty, or of another format (without the bitmap signature) reports that it is not a bitmap and never hands back an image; editing such a file writes no output. A complete bitmap, also one written by another program, always loads.',
  ['crash_points', 'inputs', 'fault_sequences', 'schedules'],
  'Every length at which a save can be cut, every interleaving of a reader with a save in progress, and every file content without the bitmap signature.',
  'Tests only load intact sample files; the cut points of a save and reads during a save are never visited.',
  [B, S + 'fileutils.py', S + 'messages.py'],
  [('signature and size check when loading', B + ': loadBMP'), ('existence guard of the file edits', S + 'fileutils.py: checklink, checklinks')])

p('C03', 'A file edit changes only its output, and only once it has a result',
  'An edit from a source file to an output file leaves the source, and every file other than the output, byte-for-byte untouched; an output is created or replaced only when the edit has been computed completely, so an edit that is refused, fails or is killed before then leaves even an existing output as it was. A source file that is missing is reported, with no other effect. When a storage fault or crash hits while the output is being written, that file is the only one affected and it is the old content, the new picture, or is refused by later loads.',
  ['inputs', 'crash_points', 'fault_sequences', 'histories'],
  'Every file edit, every picture and argument (including refused ones), with a crash, an I/O error, an allocation failure or a Ctrl-C at any point.',
  'Tests run each edit once, successfully, and look only at the output.',
  [B, S + 'fileutils.py', S + 'paramchecks.py'],
  [('load - transform - save wrappers', B + ': _useby*sv, _use24bt*, _usefn*'), ('link guards', S + 'fileutils.py')])

p('C04', 'Editing a picture in place never loses the picture',
  'When the output of an edit is its own input, then whatever happens (refusal, error, Ctrl-C, crash, storage fault) the file holds afterwards either the complete picture from before the edit or the complete picture the edit produces.',
  ['crash_points', 'fault_sequences', 'histories'],
  'Every file edit on every picture with source and destination the same file, with a fault or crash at any point.',
  'No test edits in place with a fault; the danger window is between truncating and finishing the rewrite.',
  [B], [('save by truncating and rewriting', B + ': saveBMP'), ('load - transform - save wrappers', B + ': _useby*sv')])

p('C05', 'Histories of geometric file edits give exactly the reference picture',
  'Any sequence of flips, mirrors, crops, transpositions, region and circle copies, magnification, pixelation, resizing, inversion, line erasing and outlining, applied to bitmap files or in memory between a load and a save, gives, after every step, exactly the pixels, size, depth and palette that a plain pixel-grid model of those edits gives: only the selected region changes (below 8 bits, the whole bytes that hold it), and an edit outside the picture or of an unsupported depth alters nothing. This holds across failed and repeated edits and restarts in between.',
  ['inputs', 'histories', 'fault_sequences'],
  'All picture geometries (also 1-pixel, odd and non-square), all depths, all regions, all histories of edits, with storage faults and restarts between steps.',
  'Tests compare a handful of edits on one or two sample pictures with even dimensions; composition, odd widths and edges are not sampled.',
  [B, S + 'bufferflip.py', S + 'buffersplit.py', S + 'bufresize.py', S + 'paramchecks.py'],
  [('slice arithmetic per row', B + ': horitransforms, verttrans*, crop, *circregion'), ('bounds decorators', S + 'paramchecks.py')])

p('C06', 'Histories of colour and depth edits give exactly the reference picture',
  'Any sequence of brightness, threshold, gamma, colour-filter, monochrome, gradient, palette-shift and depth-conversion edits, whole-picture, rectangular or circular, on files or in memory, gives on every step the pixels and palette of a per-pixel reference model: every pixel of the region is adjusted by the documented rule clamped to the valid range, every pixel outside it keeps its value. Comparing two pictures keeps exactly the differing (or the shared) pixels.',
  ['inputs', 'histories', 'fault_sequences'],
  'All pictures, depths, regions and parameter values, all histories, with storage faults and restarts between steps.',
  'Tests run each filter once on one sample; row edges, odd widths, single-pixel regions, saturation and composition are not covered.',
  [B, S + 'colors.py', S + 'bmppal.py'],
  [('in-place per-channel slices', S + 'colors.py: apply*BGRbuf'), ('palette rewriting', B + ': _useclradjfn, setbmppal')])

p('C07', 'An image under drawing is a faithful pixel store at every depth',
  'During any session of drawing points, lines, rectangles, circles, ellipses, polygons and fills, of reading pixels back, copying and pasting, saving, crashing and reloading, every pixel reads as the last value drawn there and no other pixel, header byte or palette entry changes, at 1, 4, 8 and 24 bits. Of a shape partly or wholly outside nothing is wrapped onto another row or written outside the image (end points of lines and polygons are moved to the border).',
  ['inputs', 'histories', 'crash_points'],
  'All sessions of drawing and reading calls at all depths and sizes, with saves, crashes and reloads at any point.',
  'Tests draw fixed scenes and mostly check that nothing raises; partial bytes, borders, clipping and read-back of neighbours are not quantified.',
  [B, S + 'primitives2D.py'],
  [('offset arithmetic and nibble/bit packing', B + ': plotxybit, getxybit, _BMoffset'), ('row and column runs', B + ': horiline, vertline, filledrect, BMPbitBLTput')])

p('C08', 'Interrupting a drawing or filter leaves a valid image',
  'If an in-memory drawing, filter or transform is stopped at any point (Ctrl-C, failing allocation, exception from a user callback), the image still has its size, header and palette and can be saved and reloaded, no pixel outside the area the operation was asked to change has been altered, and repeating the operation on the saved copy works normally.',
  ['crash_points', 'inputs'],
  'Every operation on an image buffer, every image, interrupted before any executed line of the library.',
  'No test interrupts an operation.',
  [B, S + 'paramchecks.py'],
  [('read-modify-write of regions with buffer splice', B + ': BMPbitBLTput, _use*reg, _use*circreg, flip/mirror')])

p('C09', 'Reading iterators stay exact while the image is drawn on',
  'Walking an image with the library\'s pixel, colour, region and scan-line iterators yields each position of the area exactly once in its documented order, and the edge and similar-colour walks exactly the positions their rule selects, each with a colour the pixel held between the start of the walk and its delivery, and never alters the image. This holds however a walk is interleaved with drawing, other walks and queries, or is stopped or abandoned part-way; curve, fractal, glyph and palette-cycle iterators deliver when interleaved what they deliver alone.',
  ['schedules', 'inputs'],
  'All interleavings of several walks with drawing calls, all depths, regions and images.',
  'Tests consume each iterator in one go.',
  [B, S + 'primitives2D.py'],
  [('generators over the pixel buffer', B + ': itergetcolorfromrectregion, iterimageRGB, iterimagecolor, iterimageregionvertbyRGB, iterimagedgevert, itercopyrect')])

p('C10', 'Concurrent callers with their own images do not disturb each other',
  'Callers in different threads that make any library calls on their own images, arguments and files (deterministic calls, drawing no random numbers) get, under every interleaving, byte-for-byte the images, files, return values and exceptions each gets when running alone, and every caller finishes.',
  ['schedules', 'programs'],
  'All interleavings, at every executed line and system call, of 2 to 4 callers each running a sequence of library calls on its own data.',
  'The tests are single-threaded.',
  [B, S + 'colors.py', S + 'primitives2D.py', S + 'fonts.py', S + 'fractals.py'],
  [('module-level tables and default arguments shared by every caller', S + '*.py'), ('per-call state', B)])

p('C11', 'What a call returns depends only on its arguments',
  'Every deterministic library call, made again with equal arguments, gives an equal result (return value, exception, drawn pixels, written files), whatever was called, failed or was interrupted before, and even when callers overwrote results they had been handed. Calls that only read or compute never modify the image, list or table they are given, and no call alters the built-in palettes, fonts and tables or leaves the process changed (working directory, environment other than PATH, limits, handlers).',
  ['histories', 'inputs', 'crash_points'],
  'All histories of other library calls, including aborted ones and ones that mutate earlier return values, between two equal calls.',
  'Tests call each function in a fixed order in a fresh process.',
  [S + '*.py'],
  [('module tables, default arguments, cached results', S + 'bmpconstants.py, colordict.py, fonts.py, bmppal.py, messages.py, colors.py'), ('read-only queries', B)])

p('C12', 'Randomised drawing is sound for every outcome of the random source',
  'Ferns and other iterated-function drawings, random colour reduction and the random-vector helpers keep strictly to their area and to the colours they were given for every sequence the random source can deliver, and equal random sequences give equal pictures. Each point of such a drawing is the one the random numbers select with the given probabilities; reducing to fewer colours at random only sets a pixel to what its source colour makes possible (black stays black, and the share of white follows the brightness). Every coordinate of a random vector, and every vertex it is added to, gets a random number of its own.',
  ['schedules', 'inputs'],
  'All sequences of random numbers, including the extreme ones, and all areas and images.',
  'Tests see one arbitrary random sequence per run and cannot compare pictures.',
  [B, S + 'fractals.py', S + 'colors.py', S + 'mathlib.py'],
  [('random choice of the transform', S + 'fractals.py: iterIFS; ' + B + ': IFS, fern'), ('probabilistic plotting', S + 'colors.py: probplotRGBto1bit, probplotRGBto4bitpal; ' + B + ': convertselection2BMP, intplot*'), ('random offsets', S + 'mathlib.py: randomvect, addrndtovert')])

p('C13', 'Timings are exact under any clock, and timing a call does not change it',
  'The elapsed time between two clock readings in order is reported exactly, to the nanosecond. A timed function receives the same arguments and returns the same value or raises the same exception as when untimed, runs exactly once (never twice, also when the report cannot be printed or is interrupted), keeps its name and documentation, and the time reported lies between the time the function took and the time the whole call took, also for nested and concurrent callers.',
  ['inputs', 'schedules'],
  'All pairs of clock readings (sub-second to days), all timed functions and outcomes, all interleavings of nested and concurrent timed calls, with failing output.',
  'Tests use the real clock and cannot assert the text for chosen readings.',
  [S + 'proctimer.py', S + 'funcmeta.py'],
  [('formatting of elapsed nanoseconds', S + 'proctimer.py: hhmmsselaspedtime, elaspedtimeinseconds'), ('decorator', S + 'proctimer.py: functimer')])

p('C14', 'Colour-cycling to a directory delivers the whole ordered cycle or nothing',
  'Writing a colour cycle of a 4- or 8-bit picture puts into the directory exactly the numbered bitmaps of all palette rotations, each with the picture\'s pixels; an existing directory is refused with nothing written unless overwriting was asked for, and an unusable (or unreadable) source creates nothing. A fault, interruption or crash part-way leaves the source and every other file intact and only correct frames of the sequence\'s beginning plus at most one incomplete file that no load accepts.',
  ['inputs', 'crash_points', 'fault_sequences', 'histories'],
  'All pictures, directory states and repeats, with a crash or storage fault at every point of the sequence.',
  'The tests run one cycle on a healthy disk at most.',
  [B], [('directory creation and frame naming', B + ': colorcycle2dir, _usefndirsv'), ('palette rotation', B + ': itercolorcycle, palshift')])

p('C15', 'Putting the paint wrapper on PATH is idempotent and loses nothing',
  'Making the viewer wrapper reachable leaves every earlier PATH entry in place and in order, puts the wrapper directory in front when it is absent so that the wrapper is found, adds it once however often, in whatever order and however concurrently bitmaps are saved, and changes no other environment variable. A failing file-system lookup never makes a save fail after its data was written.',
  ['histories', 'configurations', 'fault_sequences'],
  'All PATH values (unset, empty, duplicated, with entries that contain the directory name), platforms and sequences or overlaps of saves, with stat failures.',
  'Tests run once with the developer\'s PATH.',
  [B], [('PATH check', B + ': ensurePaintWrapperInPath, saveBMP')])

p('C16', 'The viewer launcher opens the right file, once',
  'The launcher opens exactly the file it was given, or without one (or given a pattern) the most recently modified matching bitmap below the current directory: it starts the platform\'s viewer on that file exactly once (on Android after announcing it to the media scanner) and starts none when there is nothing to open. It changes no file\'s content, and exits with a visible failure when there is nothing to open or the viewer cannot be started or fails.',
  ['configurations', 'fault_sequences', 'inputs'],
  'All directory trees and modification times, all platforms, and every combination of viewer commands being absent or failing.',
  'The launcher is not tested at all.',
  ['mspaint.py'], [('file choice', 'mspaint.py: determine_file'), ('command fallback', 'mspaint.py: module body')])

p('C17', 'Every picture the library creates is a well-formed bitmap as requested',
  'Every picture file the library makes by itself (new pictures, text in any style, fractals, attractors, Hilbert curves, snowflakes) has, when the call returns, a self-consistent header and length, the requested width, height and depth (or, for text and snowflakes, the size they need), the depth\'s default palette or the palette made from the given colours, and the pixels of the requested text, fractal, orbit density or curve; it loads back identically. Under any fault, interruption or crash no other file changes and the target is as before, complete, or refused by loads.',
  ['inputs', 'fault_sequences', 'crash_points'],
  'All these creators, sizes, depths, texts, fonts, colours and parameters, with storage faults, interruptions and crashes at any point.',
  'Tests create each with one size, mostly multiples of 4, on a healthy disk.',
  [B, S + 'fonts.py', S + 'fractals.py'],
  [('header and size computation', B + ': newBMP, _setmeta, _pdbytes'), ('text layout', B + ': plotstring*2file'), ('fractal and attractor savers', B + ': save*2file')])

p('C18', 'Text drawn into an image is exactly the font\'s glyphs, placed and clipped',
  'Drawing a text or single glyph with any of the built-in bitmap fonts (256 characters) at any position, magnification and spacing, plain, italic, reversed, upside-down, sideways or vertical, sets exactly the pixels of the glyphs in the documented layout to the text colour (given a list, one colour per glyph row) and changes nothing else, across line breaks and tabs, at every depth, after any other drawing and across interrupted calls. Magnified cells cut by the border may be left out.',
  ['inputs', 'histories', 'crash_points'],
  'All texts, fonts, sizes, spacings, positions and depths, in any history of drawing calls.',
  'Tests draw one string and check it does not raise.',
  [B, S + 'fonts.py', S + 'textgraphics.py'],
  [('glyph lookup', S + 'fonts.py: getcharfont'), ('bit pattern plotters', B + ': plot8bitpattern*, plotstring*')])

p('C19', 'Every pixel of a fractal is decided by its own point of the plane',
  'Drawing an escape-time or Newton fractal into any rectangle of a picture gives every pixel of the rectangle that lies inside the picture the colour its own point of the given domain has by the fractal\'s rule (the iteration at which it escapes, mapped to the depth and colour factors), whatever the rest of the picture holds, and changes no other pixel, header byte or palette entry. An interrupted drawing leaves each pixel old or right, and point iterators advanced in any interleaving deliver each point of their own rectangle once, in row order, with its own count.',
  ['inputs', 'schedules', 'crash_points', 'histories'],
  'All 33 kinds of escape-time fractal and Newton fractals, all rectangles (also reversed and partly outside), domains, parameters and depths, all interleavings of iterators, interrupted at any point.',
  'Tests draw one full square picture per kind; rectangles, clipping, depths, iteration limits and interruptions are not sampled.',
  [B, S + 'fractals.py', S + 'colors.py'],
  [('point-to-colour mapping per depth', B + ': plotmultifractal, plotmultifractalcomplexpar, newtonsfractal'), ('domain mapping and recurrences', S + 'fractals.py: mapfractaldomain, itermultifractal*')])

p('C20', 'Charts, solids, flowers and console pictures show exactly their data',
  'Drawing axes, numbered points, a scatter plot with its regression line, a regular polygon, a flower, or one of the built-in solids (cube, tetra-, hexa-, octa-, deca- and icosahedron, sphere, cylinder, cone) or a surface plot, at any size, position, rotation and distance, sets exactly the pixels the data have in the documented layout: every tick, label, point, face and petal at its place in its colour, data beyond the end of an axis nowhere, faces turned away not at all, nearer shades as the light falls; and changes nothing else, at every depth. Interrupted at any point it leaves each pixel old or drawn. Printing a picture to the console gives one line per row with every pixel of it, and a console that fails never alters the picture.',
  ['inputs', 'histories', 'crash_points', 'fault_sequences'],
  'All axes, data, solids, rotations, distances, positions and depths, in any history of drawing, interrupted at any point or with a failing console.',
  'No test draws a chart, solid or flower and looks at its pixels.',
  [B, S + 'solids3D.py', S + 'charts.py', S + 'textgraphics.py', S + 'primitives2D.py'],
  [('axes and plots', B + ': XYaxis, XYscatterplot, numbervert, userdef2Dcooordsys2screenxy'), ('solids', S + 'solids3D.py: perspective, gensides, *vertandsurface; ' + B + ': plot3Dsolid, plotpolyfillist'), ('console', B + ': plotbmpastext')])

p('C21', 'Colour statistics of a picture, and palettes made from them, are exact',
  'A colour histogram counts every pixel of the picture exactly once, most frequent colour first; a palette made from a histogram or from a 24-bit picture is black, then the most frequent colours that keep the wanted distance from all chosen before, filled up with black; one-colour, inverted and two-colour palettes are the documented ramps, and named colours are matched to the nearest entry. Setting a palette changes palette entries only, reading (size, depth, palette, default-palette test, image bytes, raw blocks) tells what the picture holds and changes nothing, and raw blocks are written exactly where asked or not at all. This holds after any history of drawing, saving and interrupted calls; an interrupted palette change leaves each entry old or new.',
  ['inputs', 'histories', 'crash_points'],
  'All pictures, depths, histograms, thresholds, colour factors, offsets and histories, interrupted at any point.',
  'Tests check a few palettes of fixed pictures; histories, interruptions, offsets at the end and other depths are not sampled.',
  [B, S + 'colors.py', S + 'dicttools.py', S + 'bmppal.py'],
  [('histogram and palettes', B + ': colorhistogram, makenewpalfromcolorhist, setnewpalfromsourcebmp, setBMP2*'), ('raw blocks', B + ': BMPbitBLTput, BMPbitBLTget, setBMPimgbytes'), ('ramps', S + 'colors.py: monochromepal, monoinverseshiftable*, dichromaticpal')])

p('C22', 'A sample program draws one complete picture, then shows it, wherever it runs',
  'Every sample program shipped with the library, started in any working directory, saves one complete picture (the colour-cycling one: its set of frames), has finished and closed it before it starts the picture viewer, and starts the viewer once, with that file, which the shipped launcher then opens. The picture depends on the program and its random numbers only: not on the clock, on how the disk transfers data, on an older file of that name, or on which programs ran before in the same process, also interrupted or failing ones. A program that is interrupted, crashes or meets a failing disk shows no incomplete picture and leaves the output old, new or a beginning of the new, and no other file altered; a viewer that fails or is missing costs nothing of the picture.',
  ['inputs', 'histories', 'crash_points', 'fault_sequences'],
  'All 239 programs, in any sequence in one process, any directory, disk, clock and viewer, interrupted at any point.',
  'No test runs a sample program.',
  ['samples/*/*.py', B, S + 'fileutils.py', 'mspaint.py'],
  [('programs', 'samples'), ('saving and the viewer path', B + ': saveBMP; ' + S + 'fileutils.py'), ('viewer', 'mspaint.py')])

N = [
 ('N01', 'Colour arithmetic is exact', 'Conversions between integer, byte, fractional and hue colour forms, and matching a colour to the nearest palette entry, are mutually consistent for every colour.',
  ['inputs'], 'All colours and palettes.', 'Tests convert a few colours.', [S + 'colors.py'], [('pure functions', S + 'colors.py')]),
 ('N02', 'Vector, matrix, statistics and interpolation helpers satisfy their laws', 'The arithmetic helpers obey the algebraic identities of the operations they name for all finite inputs.',
  ['inputs'], 'All numeric inputs.', 'Tests evaluate a few points.', [S + 'mathlib.py', S + 'inttools.py'], [('pure functions', S + 'mathlib.py')]),
 ('N03', 'Curve and solid vertex lists follow their defining equations', 'Every generated vertex of a curve or solid satisfies its defining equation up to rounding.',
  ['inputs'], 'All curve parameters.', 'Tests compare a few fixed lists.', [S + 'primitives2D.py', S + 'solids3D.py'], [('pure generators', S + 'primitives2D.py, ' + S + 'solids3D.py')]),
]
for x in N:
    p(*x)
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(q) + '\n')
print(len(P))
