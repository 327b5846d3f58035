#!/usr/bin/env python3
"""Writes properties.jsonl. Kept so that the file can be regenerated and reviewed."""
import json, os
P='thermal_parser/src/'; R='thermal_renderer/src/'
def p(id,title,statement,over,q,why,files,mech,observe):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
L=[
p('C01','Every byte stream is parsed and rendered without crashing',
 'Parsing any byte stream and rendering it to an image or to HTML always finishes and returns a result; malformed, truncated, oversized or contradictory command data is ignored or reported, and never aborts the program.',
 ['inputs'],'every byte string (valid command sequences, truncations, mutations, random bytes) through both parser entry points and both renderers, pictures as far as they fit into memory',
 'The tests render about twenty well-formed sample files; the crashes live in short, truncated or extreme parameters.',
 [P+'parser.rs',P+'graphics.rs',P+'commands/',P+'subcommands/',R+'renderer.rs',R+'image_renderer/',R+'html_renderer/'],
 [('command framing','parser.rs Parser::parse'),('parameter decoding','commands/*.rs apply_context, get_graphics'),('layout and drawing','renderer.rs, thermal_image.rs')],
 ['parse_esc_pos / parse_str','ImageRenderer::render','HtmlRenderer::render']),
p('C02','Commands are framed by their documented lengths and no byte is lost',
 'A byte stream splits into exactly the sequence of ESC/POS commands it encodes: every command takes precisely the parameter bytes its documented format and length fields call for, text runs are kept whole, and a command still open when the stream ends is delivered. Concatenating the bytes of the parsed commands gives back the whole input, in order.',
 ['inputs'],'every concatenation of text runs and encoded commands of every kind and length, including truncation at every point and arbitrary junk',
 'The tests parse a dozen fixed strings and never vary lengths, order, adjacency or truncation.',
 [P+'parser.rs',P+'command.rs',P+'commands/mod.rs',P+'subcommands/mod.rs'],
 [('state machine','parser.rs Parser::parse / parse_bytes'),('fixed and length-driven data handlers','command.rs, commands/*.rs push'),('command table','command_sets/esc_pos.rs')],
 ['commands handed to the parser callback, their name, kind and raw bytes']),
p('C03','Converting a binary job to .thermal text and back loses nothing',
 'Converting any stream of ESC/POS bytes to the .thermal text format and reading that text back yields exactly the original bytes. Converting again yields the same text.',
 ['inputs'],'every byte string: all commands, text with quotes, backslashes, hashes, control characters, non-UTF-8 bytes',
 'The tests check a handful of hand written files and cannot cover every command, escape and byte value.',
 [P+'thermal_file.rs',P+'command.rs',P+'text.rs'],
 [('serialiser','thermal_file.rs cmds_to_thermal, command.rs get_command_bytes'),('reader','thermal_file.rs parse_str')],
 ['binary_to_thermal / thermal_to_binary round trip']),
p('C04','The .thermal text format reads as its documentation describes',
 'In a .thermal file, quoted strings give their characters in UTF-8 with backslash escapes resolved, 0x.. tokens give the hexadecimal byte, decimal numbers 0-255 give that byte, named control tokens give their control codes and other bare words give their characters; comments and separators contribute nothing. How tokens are split over lines, spaced, or commented never changes the bytes produced.',
 ['inputs'],'every sequence of tokens of all kinds, with any separators, comments, quoting and adjacency',
 'Tests fix about ten examples; the interaction of quoting, comments, escapes and token adjacency is unbounded.',
 [P+'thermal_file.rs'],[('tokenizer','thermal_file.rs parse_tokens / parse_str')],['bytes produced from text']),
p('C05','Text bytes decode to the selected code table and character set',
 'Each printable byte is shown as the character that the selected code table assigns to it, with the national positions replaced as the selected international set says. Table 255 reads text as UTF-8; a table number that is not known selects code table 437, an international set that is not known selects the USA set. Selecting a code table or a set affects only text that follows, and bytes below 0x80 other than national positions read as ASCII in every table.',
 ['inputs','histories'],'all code tables, all international sets, all bytes, any interleaving of selections and text',
 'The tests decode one table with one string; the tables have thousands of entries.',
 [P+'text.rs',P+'decoder/',P+'commands/set_code_table.rs',P+'commands/set_international_charset.rs',P+'context.rs'],
 [('decoder','decoder/mod.rs get_codepage / decode_utf8'),('selection','set_code_table.rs, set_international_charset.rs, context.rs update_decoder')],
 ['text handed to a renderer and shown in HTML']),
p('C06','Every style selection applies to exactly the text printed while it is on',
 'All text that is received is printed once, in order, with the font, character size, bold, italic, underline, strikethrough, inversion, upside-down, alignment and colours selected by the commands preceding it, as their parameters specify. A style stays in force until changed or the printer is initialised, and never affects text received before it.',
 ['histories','inputs'],'every interleaving of style commands with every parameter value and text runs',
 'Tests compare a few rendered samples by eye; combinations and parameter aliases are not covered.',
 [P+'context.rs',P+'commands/',R+'renderer.rs'],
 [('style commands','commands/*.rs apply_context'),('span collection','text.rs TextSpan::new, renderer.rs collect_text')],
 ['spans handed to an output renderer','HTML spans']),
p('C07','Text is laid out inside the printable width at its proper position',
 'Text advances by its cell width, wraps at word boundaries to the printable width, breaks words too long for one line, moves to the next tab stop on tab, ignores carriage returns, and each line is placed left, centred or right as selected. In standard mode no character cell of text that starts inside the printable width starts or ends outside of it, and no character is lost by wrapping.',
 ['inputs','histories'],'every text (word lengths, spaces, newlines, tabs), size, font, alignment, tab setting and starting position',
 'Sample renderings cover a few short lines; wrapping and justification depend on exact widths.',
 [R+'renderer.rs',P+'context.rs'],
 [('line breaking','renderer.rs process_text, text.rs break_into_words / break_apart'),('tabs, alignment','renderer.rs, context.rs')],
 ['x, y, width of the laid out text runs']),
p('C08','Feeds, line spacing and content add up to the paper length',
 'Vertical position moves exactly by what was printed or fed: each line by the larger of line spacing and its tallest text, feeds by the requested lines or dots, reverse feeds back but never above the top, cuts and images by their heights. The finished page is as tall as the lowest content and feed together and always has the full paper width.',
 ['histories','inputs'],'every interleaving of text, line feeds, line spacing, paper feeds, reverse feeds, cuts, bar codes, images',
 'Tests do not check any vertical position.',
 [R+'renderer.rs',P+'context.rs',P+'commands/'],
 [('position tracking','context.rs newline/feed'),('page growth','thermal_image.rs')],
 ['y of every output primitive and final image size']),
p('C09','Linear bar codes carry exactly the data that was sent',
 'A printed linear bar code of any supported type decodes, by that symbology\'s own rules, back to the data sent (with its check digit), with the selected module width and height and alignment, and with human readable text in its selected font only at the selected positions, where nothing else is printed over it. A check digit that is missing is computed (ITF data of odd length gets one, UPC-A and EAN-13 recompute a wrong one, EAN-8 rejects it). Data that the symbology cannot encode prints no bars and reports an error.',
 ['inputs','configurations'],'every supported symbology, all valid and invalid data, module widths, heights, HRI positions and fonts, alignments',
 'The tests only view one or two sample codes; they never decode them.',
 [P+'commands/barcode.rs',P+'graphics.rs',P+'utils/barcodes/upce.rs',R+'image_renderer/'],
 [('encoding','commands/barcode.rs, utils/barcodes'),('drawing','renderer.rs process_barcode')],
 ['bar pattern handed to the renderer and dark columns of the picture']),
p('C10','QR codes decode to exactly the stored data',
 'A printed QR symbol is a valid symbol that decodes to exactly the stored bytes at no less than the selected error correction level, with the selected module size, aligned as selected; when it does not fit the paper width the part that fits keeps its shape. Only the most recently stored valid data is printed, and storing nothing valid prints an error and no symbol.',
 ['inputs','histories'],'all payloads, EC levels, models, module sizes, alignments, repeated store/print sequences',
 'The one sample QR code is compared visually; levels, sizes, versions and re-storing are not exercised.',
 [P+'subcommands/gs_code2d/',P+'graphics.rs',R+'image_renderer/'],
 [('store / print','qr_store.rs, qr_print.rs'),('drawing','renderer.rs process_code_2d')],
 ['modules handed to the renderer and pixels of the picture']),
p('C11','Raster and bit images are printed dot for dot',
 'Every raster image and bit image prints exactly the dots its data bits call for, in black at the position, alignment and scale in force, clipped only at the paper edges, and leaves all other dots untouched. Both the row and the column formats and all density modes follow their documented bit order.',
 ['inputs'],'all widths, heights, modes, scales, data, positions and alignments',
 'Tests only look at one sample logo; no pixel is compared.',
 [P+'commands/raster_bit_image.rs',P+'commands/bit_image.rs',P+'graphics.rs',R+'image_renderer/'],
 [('decoding','graphics.rs image_from_raster_bytes_*, image_from_column_bytes_*'),('blitting','thermal_image.rs put_render_img / put_pixels')],
 ['pixels of the rendered page','image handed to the output renderer']),
p('C12','Stored graphics print what was last defined under their key',
 'Printing a stored graphic prints exactly the picture most recently defined under that key in that memory, unless it was deleted or its memory cleared since, in which case nothing is printed; volatile and non-volatile memories and keys never affect each other. Layers sent to the print buffer are combined in order, printed once, and then forgotten.',
 ['histories'],'every sequence of define / delete / clear / print / buffer / print-buffer / initialise over many keys, formats and colours',
 'No test issues more than one graphics command against the same key.',
 [P+'subcommands/gs_graphics/',P+'context.rs',P+'graphics.rs',R+'renderer.rs'],
 [('key store','context.rs graphics'),('buffer merge','print_buffer_graphics.rs')],
 ['images handed to the output renderer after each print']),
p('C13','Page mode places content in the chosen area and direction',
 'In page mode everything is collected on a page and printed only when the page is printed; each print area appears at its own place on the page, with its content turned as its print direction says, whatever order areas, directions and positions are set; positions and areas count in the selected motion units, a unit of zero selects the default of one dot. Printing puts the page unchanged onto the paper and moves the paper by its height; leaving page mode without printing prints nothing.',
 ['histories'],'every sequence of areas, directions, positions, text, graphics, page prints and mode switches',
 'Two sample files with one layout each are viewed; order and overlap are not.',
 [P+'commands/',P+'context.rs',R+'image_renderer/',R+'renderer.rs'],
 [('areas and directions','context.rs page mode'),('rotation and growth','thermal_image.rs')],
 ['pixels of the rendered page']),
p('C14','Initialise returns everything to power-on settings',
 'After an initialise command the printer behaves as if just switched on, whatever was sent before it: text style, alignment, spacing, tabs, code tables, bar code and QR settings and stored volatile data are at their defaults. Only the position on the paper (down and across), what is already printed and graphics in non-volatile memory remain.',
 ['histories'],'every command prefix, followed by initialise and every suffix',
 'No test sends initialise after changing settings and compares.',
 [P+'commands/initialize.rs',P+'context.rs'],[('reset','context.rs reset')],
 ['output of a suffix after prefix+initialise versus on a fresh printer']),
p('C15','HTML output shows the same text, style and position as the receipt',
 'The HTML rendering contains exactly the printed text, in order, with every character escaped so that a browser shows it literally, each run carrying its selected style and position, and each bar code, QR code and image in its place with its exact pixels. Input data never adds markup of its own.',
 ['inputs','histories'],'all text (including markup and template syntax), styles, layouts and graphics',
 'No test inspects HTML beyond that it is produced.',
 [R+'html_renderer/mod.rs',R+'html_renderer/thermal_html.rs'],
 [('html building','thermal_html.rs'),('row layout','html_renderer/mod.rs')],
 ['parsed HTML document']),
p('C16','Rendering is deterministic and one job never affects another',
 'Rendering the same bytes always gives the same output, whether through a fresh or a reused renderer, after any other job, or at the same time as others; a parser that is used for several streams treats each as a fresh one does, and no state leaks from job to job.',
 ['inputs','histories','schedules'],'all pairs and interleavings of jobs, in sequence and on parallel threads',
 'Tests render each sample once in a fresh process.',
 [P+'parser.rs',P+'context.rs',R+'renderer.rs'],[('per job context','lib.rs parse_esc_pos, renderer.rs Renderer::render')],['outputs compared byte for byte']),
p('C17','Printed characters look like their glyphs with their styles',
 'On the rendered picture each character shows its glyph in its own cell at the selected width and height; inverse text swaps ink and paper over the whole cell, upside-down text is the upright text turned over, colours, underline and strikethrough appear exactly where they are selected, and nothing is drawn outside the cells.',
 ['inputs','configurations'],'all printable characters, fonts, sizes and style combinations',
 'Tests never compare pixels of text.',
 [R+'image_renderer/thermal_image.rs',R+'image_renderer/mod.rs'],
 [('glyph drawing','thermal_image.rs render_span / render_char')],['pixels of the rendered page']),
p('C18','Problems are reported where they occur and do not disturb the rest',
 'An unknown command reaches to the next known command; each unknown or undecodable command is reported once, with the rest of the job printed exactly as if the bad command had been left out; a job without problems reports none. Errors from one job or document do not show up in another.',
 ['inputs','histories'],'valid jobs with any number of unknown or invalid commands inserted anywhere',
 'Tests do not look at reported errors.',
 [P+'parser.rs',R+'renderer.rs',R+'image_renderer/mod.rs'],[('error collection','renderer.rs')],
 ['reported errors and picture']),
p('C19','Drawing canvas operations are exact pixel operations',
 'Pasting, filling, inverting, flipping, rotating, growing and copying on the drawing canvas change exactly the pixels their definition says, keep all others, and treat parts beyond the canvas by growing or clipping as configured. Four quarter turns, two flips and two inversions give back the original.',
 ['inputs','histories'],'every sequence of canvas operations with positions and sizes inside, across and beyond the edges',
 'No test touches the canvas directly.',
 [R+'image_renderer/thermal_image.rs'],[('canvas','thermal_image.rs')],['canvas size and pixels']),
p('C20','Form feeds and page ends split a job into separate documents',
 'A job that contains several pages ended by form feed yields one output per page, in order, and each holds what that page would hold alone, with the settings in force at its start; content is never lost, duplicated or moved to another page.',
 ['histories'],'every sequence of contents separated by form feeds, in both output formats',
 'No sample has more than one document.',
 [R+'renderer.rs',R+'image_renderer/mod.rs',R+'html_renderer/mod.rs'],[('document end','renderer.rs')],['list of outputs']),
p('C21','Commands that print nothing change nothing',
 'Status, query, peripheral and configuration commands that have no effect on printing may be inserted at any point between other commands or within a line of text without changing the output, and setting any option at the start of a line to the value it already has changes nothing.',
 ['histories','inputs'],'every job, every insertion point between commands, every non-printing command and idempotent setting',
 'Tests have no such pairs.',
 [P+'commands/',P+'subcommands/',R+'renderer.rs'],[('device commands','commands/*.rs')],['output with and without insertion']),
p('C22','UPC-E compression is lossless and complete',
 'Every product number of 11 or 12 digits that can be written as UPC-E is compressed to a code that expands back to exactly that number with the right number system and check digit; short forms of 6, 7 and 8 digits print a code that expands to the same product number. A check digit that is given (8 and 12 digits) is encoded as given, otherwise it is computed. Numbers that cannot be written as UPC-E are rejected with an error and print no bars.',
 ['inputs'],'all 11- and 12-digit numbers of systems 0 and 1, all 6 to 8 digit short forms, malformed strings',
 'The tests use a few numbers out of two hundred billion.',
 [P+'utils/barcodes/upce.rs'],[('compression','upce.rs')],['digits decoded from the bar pattern']),
p('C23','Debugging adds marks and changes nothing else',
 'Rendering with a debug profile gives the same documents of the same size with the same reported problems as without: marks around text, images and pages are drawn only for the parts that are selected and only on the borders and cells of those, and the debug log alone leaves picture and HTML exactly as they are.',
 ['inputs'],'every job, every combination of the debug switches',
 'The tests render with debugging off, or do not look at what it adds.',
 [R+'renderer.rs',R+'image_renderer/mod.rs',R+'image_renderer/thermal_image.rs'],
 [('debug profile','renderer.rs DebugProfile'),('marks','thermal_image.rs draw_border, render_span, put_render_img; image_renderer/mod.rs render_page')],
 ['ImageRenderer::render and HtmlRenderer::render with a DebugProfile']),
]
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in L:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
