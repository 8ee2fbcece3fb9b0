# ---------------------------------------------------------------- transfer
prop('T01', 'Copy delivery mirrors the source exactly and counts it honestly',
 'After a copy send returns, the destination directory holds a byte-identical copy of every listed file under its base name and of every file below the local directory at the same relative path, whatever the spelling of either directory (nested, trailing or doubled separators, relative, repeated name segments). Nothing else in the destination is added, changed or removed, no temporary file remains, and the sources are untouched. The returned count equals the number of files transmitted.',
 ['inputs','configurations'],
 'Every local tree over a small alphabet of names (including names that repeat the directory path, spaces, dots, empty and binary contents), every subset of listed files, every spelling of source and destination directory, with and without pre-existing destination content.',
 'The tests copy one absolute directory once and check that one file exists; they never look at the relative paths of the others, at extra files or at the count.',
 [T+'copysender.py', T+'sender.py'],
 [('relative path computation and temp-then-rename copy', T+'copysender.py:_copy_file_with_path'), ('recursive listing', T+'sender.py:getAllLocalFiles'), ('count', T+'copysender.py:send')],
 ['destination directory tree', 'return value of send'])
prop('T02', 'An interrupted copy never exposes a partial file under its final name',
 'If a copy send fails or is killed at any point, every final file name in the destination holds either its previous content (or is absent) or the complete new content, never a prefix or an empty file. An I/O error during sending is reported to the caller as an exception instead of a success count. Running the same send again to completion afterwards delivers every file completely.',
 ['crash_points','fault_sequences'],
 'Every file-system call made by a send, as a crash point and as an error (including a write error after a partial write), for small trees with and without previous versions at the destination.',
 'The tests never inject an error or a crash; the guarantee is about the intermediate file-system states which a test that looks only after a successful return cannot see.',
 [T+'copysender.py'], [('temporary name then rename', T+'copysender.py:_copy_file_with_path')],
 ['destination directory tree at every crash point', 'exception or return of send'])
prop('T03', 'The cancel marker follows the history of sends and cancels',
 'For any sequence of sends and cancels by copy, FTP or SSH, the configured cancel marker exists in the destination directory after a cancel, and a following copy send removes it. The marker contains exactly the text given to the last cancel (empty when none was given), is placed under the configured name and leaves all delivered files unchanged. No temporary file is left behind, also when the server refuses the marker.',
 ['histories','configurations'],
 'All sequences of send / cancel / cancel-with-text up to depth 4, over several marker names, with and without files whose names resemble the marker.',
 'Tests run send then cancel once; re-sending after a cancel, cancelling twice with different text and other orders are never run, and FTP and SSH cancel are never run at all.',
 [T+'copysender.py', T+'ftpsender.py', T+'securesender.py'], [('marker removal on send', T+'copysender.py:send'), ('marker creation', T+'copysender.py:cancel'), ('remote marker', T+'ftpsender.py:cancel'), ('remote marker', T+'securesender.py:cancel')],
 ['destination directory tree after every step'])
prop('T04', 'Senders reject bad configuration up front and never disturb caller data',
 'Constructing any sender without one of its required properties, with a listed file or directory that does not exist, or with something other than a list of files fails with the documented error type, and a valid configuration is accepted. Adding files or changing the directory later is checked for existence the same way and is all-or-nothing, and a following send transmits exactly the resulting set. No operation changes the list or dictionary objects the caller passed in, and the five documented transfer names map to five distinct senders while any other name is refused.',
 ['inputs','histories'],
 'Every subset of required properties for all five senders, every kind of bad file / directory argument, and all short histories of add-files / change-directory / send.',
 'Tests only construct valid senders and never call the later modification methods.',
 [T+'sender.py', T+'factory.py'], [('constructor validation', T+'sender.py:__init__'), ('later additions', T+'sender.py:addFiles'), ('directory change', T+'sender.py:changeDirectory'), ('name table', T+'factory.py:get_sender_class')],
 ['exception types', 'caller objects', 'files transmitted'])
prop('T05', 'FTP delivery is complete, or reported as failed',
 'When an FTP send returns, every listed file and every file below the local directory is on the server, byte-identical, at its base name or relative path below the remote directory, with intermediate directories created, no temporary file left, and a count equal to the number of files. Final names only ever appear by renaming a fully stored temporary file. If the server refuses or fails any login, directory, store or rename step in a way that leaves a file undelivered, the send raises an exception instead of returning a count.',
 ['inputs','fault_sequences'],
 'All small trees / listed files / remote directory spellings, times every single (thorough: every pair of) server refusal at every command of the conversation, against an in-memory FTP server speaking the wire protocol.',
 'The FTP tests need a real server and never run; no refusal is ever exercised.',
 [T+'ftpsender.py'], [('send loop', T+'ftpsender.py:send'), ('directory creation', T+'ftpsender.py:_create_remote_directory'), ('store then rename', T+'ftpsender.py:__sendfile')],
 ['server file tree after every command', 'return or exception of send'])
prop('T06', 'SSH delivery is complete, or reported as failed',
 'When an SSH send returns, every listed file and every file below the local directory is on the remote host, byte-identical, at its base name or relative path below the remote directory (created if needed), nothing else is changed there, and the count equals the number of files. Final names only ever appear by renaming a completely transferred temporary file. If the connection, a transfer or a remote command fails so that a file is not in place, the send raises an exception.',
 ['inputs','fault_sequences'],
 'All small trees / listed files / remote directory states, times every single failing remote command or transfer acknowledgement, against an in-process remote host (real shell in a scratch directory, scp wire protocol).',
 'The SSH test needs a real host and never runs.',
 [T+'securesender.py', 'impactutils/extern/scp/scp.py'], [('send loop', T+'securesender.py:send'), ('remote folder creation', T+'securesender.py:_make_remote_folder'), ('put then mv', T+'securesender.py:_copy_file_with_path')],
 ['remote directory tree', 'return or exception of send'])
prop('T07', 'Every e-mail recipient gets the message exactly once, or the send fails',
 'When an e-mail send or cancel returns, every configured recipient has been accepted exactly once by some configured server (a separate primary recipient once per message), no message had more than the configured maximum number of blind-copy recipients (a maximum of 0 means one message per recipient), and no recipient address is disclosed in the transmitted text of a blind-copied message. Servers are tried in the configured order until one accepts the message; the call raises an exception exactly when all of them fail for some message.',
 ['inputs','fault_sequences','configurations'],
 'All recipient counts 0..6, batch limits 0..4 and default, primary recipient given or not, 1..3 servers, and every combination of server outcomes (connection refused, refusal at each protocol step, disconnect, failure on quit) per message, against an in-memory SMTP server speaking the wire protocol.',
 'The e-mail tests are not run (they need a server); batching boundaries, fail-over and privacy are untested.',
 [T+'emailsender.py'], [('batching', T+'emailsender.py:_split_addresses'), ('fail-over', T+'emailsender.py:_send_email')],
 ['envelopes and message text accepted by each server', 'return or exception'])
prop('T08', 'E-mail carries the message and every file unaltered',
 'Every transmitted message has the configured sender, subject and message text, is addressed to its recipient or (blind-copied) to the primary recipient or nobody, and its attachments decode to exactly the listed files and the files below the local directory, byte for byte, under their names and declared with the content type of their name (encoded or unknown ones as generic data); with zipping requested there is one archive of the configured name whose entries are the listed files by base name and the directory files by relative path. The returned count equals the number of files attached or archived. A cancel carries the given text, or the default cancel text when none is configured, and no attachments. No temporary file is left behind, also when the server refuses the message.',
 ['inputs','configurations'],
 'All small sets of files (text, CRLF text, non-ASCII text, binary, empty, image/audio/application/unknown types, nested directories) with zip on/off, with ASCII and non-ASCII message text.',
 'No test looks at the produced message.',
 [T+'emailsender.py'], [('MIME encoding', T+'emailsender.py:_get_encoded_message'), ('zip creation', T+'emailsender.py:send')],
 ['message bytes received by the server', 'return value'])
prop('T09', 'The product command carries exactly the configured values',
 'A product send runs exactly one external command whose arguments, after shell parsing, are the configured program and archive, the status (update for send, delete for cancel), the required identification values, every supplied optional value in its documented format (coordinates to four decimals, times in UTC to the millisecond), every product property with its value unaltered, and the file and/or directory to send. A second listed file, or a failing command, raises the product error; otherwise the number of files and the command output are reported. Configured values are passed literally whatever characters they contain, and sending or cancelling does not change the configuration.',
 ['inputs','histories'],
 'All combinations of supplied/omitted optional values, product property types and values (spaces, quotes, shell metacharacters, placeholder-like text), file/directory choices, send/cancel sequences, and command success or failure.',
 'Tests replace the command runner and never look at the command line.',
 [T+'pdlsender.py'], [('command template', T+'pdlsender.py:_replace_required_properties'), ('command template', T+'pdlsender.py:_replace_product_properties')],
 ['argument vector of the executed program', 'return or exception'])
prop('T10', 'The command runner reports success, output and errors truthfully',
 'Running an external command returns success exactly when its exit status is zero, together with the complete bytes of its standard output and standard error, kept apart, for any exit status or terminating signal and any amount or interleaving of output. It never raises for a command that fails or does not exist, and it returns only after the command has ended.',
 ['inputs'],
 'All exit statuses 0..255, terminating signals, output sizes around pipe-buffer boundaries on both streams in both orders, binary content, missing commands.',
 'The test runs one successful and one failing command with little output.',
 ['impactutils/io/cmd.py'], [('process handling', 'impactutils/io/cmd.py:get_command_output')],
 ['returned triple'])
prop('T11', 'The SCP client transfers files and trees exactly and fails cleanly',
 'A put makes the remote side hold byte-identical copies of the given files or directory trees (with names, permission bits and, on request, times), and a get does the same locally, never writing outside the local path, however the file data are split up on the way. Any refusal, protocol error, timeout or premature end inside a transferred item ends the call with an exception and never with a silent success or an endless loop. A client serves any number of transfers, also after failed ones, each through a session of its own that is closed afterwards, and reports the progress of every file up to its size. Without a local path a get goes to the working directory, and line breaks in names are sent quoted.',
 ['inputs','fault_sequences'],
 'All small trees, sizes around the buffer size, all chunkings of received data, and a failure (error reply, warning reply, close, timeout, garbage) at every protocol step, against an in-memory scp peer.',
 'No test touches the SCP client.',
 ['impactutils/extern/scp/scp.py'], [('send side', 'impactutils/extern/scp/scp.py:put'), ('receive side', 'impactutils/extern/scp/scp.py:get')],
 ['remote / local tree', 'exception'])
# ---------------------------------------------------------------- containers
prop('H01', 'A flat data container behaves like a durable map',
 'For any history of storing, reading, listing, dropping and re-opening, each kind of item (dictionary, list, array, string, table) read from a container equals the value last stored under that name, listings contain exactly the stored names, dropped or never-stored names are reported as lookup errors, and storing under an existing name is refused without changing what is stored. Kinds are independent: the same name may be used in each. Table numbers are kept to ten decimals and times to the millisecond. Everything is still there after closing and loading the file; a newly created container is empty whatever the file held before, separate files are independent, and changing an object given to or handed out by a container changes nothing stored.',
 ['histories','inputs'],
 'All operation sequences up to depth 4 (thorough 5) over 2 names, all kinds, boundary values (empty, nested, Unicode, NaN, integer/bool/float/bytes arrays, zero-size and scalar arrays, tables with and without time columns), re-open between any two steps.',
 'Tests store one or two items of each kind once, in one fixed order.',
 ['impactutils/io/container.py'], [('item datasets', 'impactutils/io/container.py:HDFContainer')],
 ['values returned', 'listings', 'exceptions', 're-opened file'])
prop('H02', 'A grouped data container behaves like a durable tree of named items',
 'For any history of storing, reading, listing, dropping and re-opening items under group paths, each read returns the value last stored under that exact path, listings contain exactly the paths of stored items, missing paths or names are lookup errors, and storing over an existing item is refused leaving it unchanged. Items under different group paths or of different kinds never affect one another. A newly created container is empty whatever the file held before, and changing an object given to or handed out by it changes nothing stored.',
 ['histories','inputs'],
 'All operation sequences up to depth 4 over nested group paths (empty, one, two levels, shared prefixes) and 2 names for dictionaries, arrays and strings, with re-open between any two steps.',
 'No test exercises the grouped container.',
 ['impactutils/io/smcontainers.py'], [('group navigation', 'impactutils/io/smcontainers.py:_makeGroup'), ('listing', 'impactutils/io/smcontainers.py:_getGroupPaths')],
 ['values returned', 'listings', 'exceptions', 're-opened file'])
prop('H03', 'ShakeMap containers replace whole items and reject bad ones unchanged',
 'For any history, the configuration, rupture, station, version-history and metadata items read back as the last accepted value, and an item that was never set is reported as documented. A rejected store (wrong type or not serialisable) leaves every stored item as it was. Nothing is lost by closing and re-opening the file.',
 ['histories'],
 'All operation sequences up to depth 4 over set (two values, wrong type, unserialisable), get and re-open for each item kind.',
 'No test exercises these containers.',
 ['impactutils/io/smcontainers.py'], [('replace on set', 'impactutils/io/smcontainers.py:ShakeMapContainerBase'), ('metadata', 'impactutils/io/smcontainers.py:setMetadata')],
 ['values returned', 'exceptions', 're-opened file'])
prop('H04', 'An intensity layer file holds either grids or points, consistently',
 'For any history of storing, reading, listing and dropping intensity layers, a file is of grid type or point type from its first accepted layer on, layers of the other type and point layers whose arrays differ in shape are refused without any effect, and each stored layer reads back exactly (means, deviations, coordinates, identifiers, metadata) under its name and component. Listings by component and by name contain exactly the stored layers, and dropping a name removes it from every component and nothing else.',
 ['histories','inputs'],
 'All operation sequences up to depth 4 over 2 names x 2 components, grid / points / mismatched shapes, drop, list and re-open.',
 'No test exercises this container.',
 ['impactutils/io/smcontainers.py'], [('type guard', 'impactutils/io/smcontainers.py:setDataType'), ('layer store', 'impactutils/io/smcontainers.py:setIMTGrids'), ('layer store', 'impactutils/io/smcontainers.py:setIMTArrays'), ('drop', 'impactutils/io/smcontainers.py:dropIMT')],
 ['values returned', 'listings', 'exceptions', 're-opened file'])
# ---------------------------------------------------------------- web
prop('W01', 'Event web queries retry once, fail loudly and report the event faithfully',
 'A query of the event or region service uses the first good answer, retries exactly once, after a pause, when the reply is service unavailable, and otherwise raises an exception instead of returning an empty result; every request has a time limit. The authoritative identifier, the other identifiers and their networks, time, location, depth, magnitude and links reported afterwards equal those in the service answer, each other identifier being paired with the longest network prefix that matches it.',
 ['inputs','fault_sequences'],
 'All answer sequences of length 2 over {good, 503, other HTTP error, connection error, invalid JSON}, and all identifier/network lists over a small overlapping alphabet.',
 'The tests need the live service and are excluded from the suite.',
 ['impactutils/comcat/query.py'], [('retry', 'impactutils/comcat/query.py:_get_url_data'), ('network matching', 'impactutils/comcat/query.py:getAssociatedSources')],
 ['requests made', 'values returned', 'exceptions'])
# ---------------------------------------------------------------- time
prop('M01', 'Ancient and modern dates format identically and correctly',
 'Formatting any date from year 1 to 9999 yields the text that the calendar implies for every supported directive: weekday and month names, zero-padded four-digit year, day, month, hour, minute, second, microsecond, day of year and week numbers, with literal text and escaped percent signs unchanged. Directives that cannot be honoured for early years are refused with a value error, and dates keep ordinary date behaviour (construction, comparison, arithmetic).',
 ['inputs'],
 'Every year 1..9999 times several days and times of day, times every directive alone and in the documented formats, including digits and percent signs that could be confused with a year.',
 'No stable test formats a date before 1900 at all.',
 ['impactutils/time/ancient_time.py'], [('year substitution', 'impactutils/time/ancient_time.py:HistoricTime.strftime')],
 ['formatted text', 'exceptions'])
prop('M02', 'Elapsed time is exact and phrased in its largest non-zero units',
 'The elapsed time between two instants is decomposed into whole weeks, days, hours, minutes and seconds that add up exactly to the real interval (fractions of a second dropped), each within its range; an interval backwards in time is refused. The text gives the largest non-zero unit and the next smaller one (seconds alone below a minute), with correct values and singular/plural forms.',
 ['inputs'],
 'Every number of seconds over more than three weeks, all unit boundaries over 60 years, and all pairs of instants over a grid of month ends, leap days and year ends.',
 'The test checks a handful of intervals.',
 ['impactutils/time/timeutils.py'], [('decomposition', 'impactutils/time/timeutils.py:ElapsedTime')],
 ['returned text'])
prop('M03', 'Time-zone raster lookup converts consistently in both directions',
 'Converting between universal and local time for any coordinate uses exactly the clock offset, at that instant, of the raster cell selected by the coordinate and the requested rounding (by default the cell that contains it), including cell edges, raster borders and rasters across the antimeridian; coordinates outside the raster use the nearest border cell. The reverse conversion returns the original instant, except in the repeated hour of a clock change. Incomplete raster descriptions are refused.',
 ['inputs'],
 'Small rasters, all cells, cell centres / edges / corners, out-of-range coordinates, all rounding methods, all instants around the clock changes of two years.',
 'The stable tests cannot run it (the raster is not in the repository).',
 ['impactutils/time/timeutils.py'], [('raster lookup', 'impactutils/time/timeutils.py:TimeConversion')],
 ['converted datetimes'])
prop('M04', 'Local time uses the zone polygon that contains the place, nautical otherwise',
 'Local time for a place equals universal time plus the offset in force at that instant, including daylight-saving changes, in the time zone whose polygon contains the place; outside every polygon it is the nautical offset of the nearest 15-degree meridian. Local and universal instants always differ by exactly the reported offset, the reported zone is the one used, and asking again for another place or instant gives the same answer as a fresh object.',
 ['inputs'],
 'Synthetic zone polygons (nested, multi-part, holes) x grid of places x instants around daylight-saving changes x all longitudes -180..180.',
 'The stable tests never reach it (data files and projection strings are missing).',
 ['impactutils/time/timeutils.py'], [('zone search', 'impactutils/time/timeutils.py:LocalTime'), ('zone search', 'impactutils/time/timeutils.py:LocalTimeNE')],
 ['local datetimes', 'offsets'])
prop('M05', 'Time-zone download yields the whole data set or fails, touching nothing else',
 'Fetching the latest time-zone data finds the shapefile archive among the links of the release page, whatever else the page links to, and leaves every file of the archive, with its exact contents, directly in the output directory, however the archive arranges its folders; it returns the shapefile. When the page does not offer the data set, or the page or the archive cannot be read completely, the call fails. Files that were in the output directory before, and everything outside it, are left alone.',
 ['inputs', 'faults'],
 'All release pages of up to three links, all archive layouts (flat, folders, nested, parent names) x states of the output directory, every network fault, every truncation and damaged bytes of the archive; destructive calls go to a guard.',
 'The only test that calls it needs the network and is not run.',
 ['impactutils/time/timeutils.py'], [('download', 'impactutils/time/timeutils.py:get_recent_timezone_data')],
 ['files of the output directory', 'returned path', 'exceptions'])
# ---------------------------------------------------------------- text
prop('X01', 'Rounding helpers return the right multiple of the step',
 'Rounding to a step returns a multiple of the step: the nearest one for round, the greatest not above the value for floor and the least not below it for ceiling, for positive and negative values and for whole, power-of-ten and fractional steps; significant-digit rounding keeps exactly the requested number of significant digits. Values that already are multiples are returned unchanged.',
 ['inputs'],
 'All integers -1200..1200 and decimal fractions over all steps in {1..}, powers of ten and fractional steps, compared with exact rational arithmetic.',
 'The test tries a handful of values.',
 ['impactutils/textformat/text.py'], [('rounding', 'impactutils/textformat/text.py:round_to_nearest'), ('rounding', 'impactutils/textformat/text.py:floor_to_nearest'), ('rounding', 'impactutils/textformat/text.py:ceil_to_nearest')],
 ['returned numbers'])
prop('X02', 'Numbers, dollar and population texts denote the right magnitude',
 'Comma, population and dollar texts of whole amounts, read back, denote the input number rounded to the documented precision (population: nearest thousand, or million on request from one million up; dollars: the requested significant digits), dollars with the unit (thousand, million, billion) that puts the leading part between one and one thousand, and are monotone in the input. Roman numerals are the standard one-to-one rendering of 1 to 3999; other numbers are refused with a value error.',
 ['inputs'],
 'Every integer 0..2,000,000 (quick: dense around all powers of ten and unit changes) and all digit/mode options.',
 'The test tries a handful of values.',
 ['impactutils/textformat/text.py'], [('formatting', 'impactutils/textformat/text.py:commify'), ('formatting', 'impactutils/textformat/text.py:pop_round_short'), ('formatting', 'impactutils/textformat/text.py:dollar_round'), ('formatting', 'impactutils/textformat/text.py:dec_to_roman')],
 ['returned text'])
# ---------------------------------------------------------------- vectors
prop('V01', 'Geographic and earth-centred coordinates convert back and forth exactly',
 'Converting any latitude, longitude and depth to earth-centred coordinates gives the point the ellipsoid defines, and converting back returns the original position to well under a metre, for scalars and arrays of any shape alike, including poles, equator, antimeridian, and depths above and below the surface.',
 ['inputs'],
 'A complete grid of latitudes -90..90, longitudes -180..180 and depths -10..700 km, scalar / 1-D / 2-D forms.',
 'The test converts a few points.',
 ['impactutils/vectorutils/ecef.py'], [('conversion', 'impactutils/vectorutils/ecef.py:latlon2ecef'), ('conversion', 'impactutils/vectorutils/ecef.py:ecef2latlon')],
 ['returned coordinates'])
prop('V02', 'Vector objects obey vector algebra and never change their operands',
 'Sums, differences, scalings, dot and cross products, directions, magnitudes and distances of vectors agree with ordinary three-dimensional algebra for all operand combinations, operands of other types are refused with a type error, and conversion to and from geographic points and azimuths between points agree with the geometry of the earth. No operation changes its operands.',
 ['inputs'],
 'All pairs and triples of vectors over the lattice {-2..2}^3 and all operators.',
 'The test tries a handful of vectors.',
 ['impactutils/vectorutils/vector.py', 'impactutils/vectorutils/point.py'], [('operators', 'impactutils/vectorutils/vector.py:Vector')],
 ['results of operations', 'operands afterwards'])
# ---------------------------------------------------------------- colours
prop('V03', 'Great-circle helpers agree with spherical geometry everywhere',
 'The great-circle distance, the distance with depths and the azimuth between any two places are those of a sphere of 6371 km, for numbers and for arrays of any shape (element by element, one against many, or all pairs), in both directions, across the antimeridian, at the poles and however longitudes are wrapped; coordinates of different shape are refused and the arguments are not changed. Point objects refuse coordinates outside their range, are equal exactly when less than a metre apart, and measure, move, select neighbours and are built from Cartesian vectors by the same geometry.',
 ['inputs'],
 'All pairs of a global lattice with poles, antimeridian and close neighbours, as numbers and arrays, compared with vector geometry.',
 'No test calls these functions directly; errors show only far from the sampled places (poles, antimeridian, arrays).',
 ['impactutils/extern/openquake/geodetic.py', 'impactutils/extern/openquake/point.py'], [('haversine and course', 'impactutils/extern/openquake/geodetic.py'), ('points', 'impactutils/extern/openquake/point.py:Point')],
 ['returned numbers', 'exceptions'])
prop('V04', 'Vendored geometry helpers agree with spherical and plane geometry',
 'Conversion between places with depths and Cartesian vectors, orthographic projection in both directions (refusing places beyond the hemisphere), the middle point, the smallest box of a set of places across the antimeridian, date-line corrections of longitudes and boxes, self-crossing of lines and outlines, removal of repeated neighbours, triangle area, unit vectors, plane fit, point-to-polygon distance and the closest object all equal what spherical or plane geometry gives, anywhere on the globe, for numbers and for arrays of any shape, without altering their arguments.',
 ['inputs'],
 'Global lattices with poles and antimeridian, all longitude sets of size 2 and 3 of an alphabet, all lines over a 3 x 3 lattice, all small vector lattices, compared with vector geometry and exact integer intersection.',
 'No test imports these helpers.',
 ['impactutils/extern/openquake/utils.py'], [('projection', 'impactutils/extern/openquake/utils.py:OrthographicProjection'), ('boxes', 'impactutils/extern/openquake/utils.py:get_spherical_bounding_box')],
 ['returned numbers', 'exceptions'])
prop('K01', 'A colour palette maps every value to the interpolated segment colour',
 'For any valid table of value segments, a palette returns for every data value the colour interpolated linearly inside the segment that contains it (to within one colour step of the palette resolution), the end colours outside the range, the missing-value colour for missing values, consistent results in every supported output form, and the same palette after being read from its file form. Changing the range limits stretches the palette linearly, presets are never affected by use, and tables whose columns differ in length are refused.',
 ['inputs','configurations'],
 'All tables of 1..3 segments over small value and colour alphabets (gaps excluded), all values on a fine grid including segment boundaries, all output forms, all presets.',
 'The tests check a few values of one map and the presets.',
 ['impactutils/colors/cpalette.py'], [('lookup', 'impactutils/colors/cpalette.py:ColorPalette.getDataColor'), ('file form', 'impactutils/colors/cpalette.py:fromFile')],
 ['returned colours', 'exceptions'])
# ---------------------------------------------------------------- ruptures
prop('R01', 'Event information is validated, kept intact and survives its file form',
 'An earthquake origin is created exactly when all required values are present and its coordinates valid, keeps every supplied value, and does not alter the dictionary it was given. A rake that is not given follows from the mechanism (SS 0, NM -90, RS 90, ALL 0); a mechanism set later brings its default rake and dip unless valid ones are given, and a refused change leaves the origin as it was. Writing event information to its file form and reading it back, from a path or a stream, yields the same values for every valid event, including unusual text and early dates: coordinates to 1/10000 degree, depth and magnitude to one decimal, the time to whole seconds. Source files keep every key and value.',
 ['inputs'],
 'All subsets of missing keys, boundary coordinates, all rake angles -180..180, all mechanism names, text alphabets with XML-special characters, and instants across years.',
 'The test reads one valid and a few invalid events.',
 ['impactutils/rupture/origin.py'], [('validation', 'impactutils/rupture/origin.py:Origin'), ('file form', 'impactutils/rupture/origin.py:write_event_file'), ('file form', 'impactutils/rupture/origin.py:read_event_file')],
 ['attributes', 'exceptions', 'files'])
prop('R02', 'A rupture survives its JSON and text forms unchanged',
 'Reading a rupture back from its JSON form yields the same kind of rupture with the same vertices, groups, reference and event information and therefore the same geometry; its text form keeps the vertices to four decimals and the reference. A polygon that lists its vertices starting elsewhere describes the same rupture, one listed in the other direction the same surface. Building or reading a rupture does not alter the input. Malformed input (unclosed, too few vertices, non-numeric, wrong type, no quadrilateral) is refused with an error.',
 ['inputs','histories'],
 'All ruptures of 1..3 quadrilaterals in 1..2 groups over small vertex alphabets, all rotations / reversals of the vertex list, all single malformations; write-read-write chains.',
 'The tests read a few fixed files.',
 ['impactutils/rupture/factory.py', 'impactutils/rupture/quad_rupture.py', 'impactutils/rupture/edge_rupture.py', 'impactutils/rupture/point_rupture.py'], [('parsing', 'impactutils/rupture/factory.py'), ('writing', 'impactutils/rupture/base.py:writeGeoJson')],
 ['rupture geometry', 'exceptions'])
prop('R03', 'Rupture distances are the true distances to the rupture surface',
 'For every rupture and site, the rupture distance is the shortest distance from the site to the rupture surface, the Joyner-Boore distance the shortest horizontal distance to its surface projection (zero above it), and epicentral and hypocentral distances those to the origin, within a small tolerance (the mesh spacing for edge ruptures, whose surface need not be planar). Rupture distance is never below Joyner-Boore distance, and results depend neither on the order of sites, their array shape, memory layout or number type nor on the order of groups. For point ruptures the estimated Joyner-Boore and rupture distances never exceed epicentral and hypocentral distance and grow with distance. Every requested measure is returned in the shape of the sites; unknown measures and arrays of different shapes are refused; a distance context holds everything its ground-motion models require.',
 ['inputs'],
 'Quadrilateral, edge and point ruptures over grids of strike, dip, size, depth and number of segments, times a grid of sites above, beside, along strike and far away.',
 'Tests compare a few stored results.',
 ['impactutils/rupture/quad_rupture.py', 'impactutils/rupture/edge_rupture.py', 'impactutils/rupture/point_rupture.py', 'impactutils/rupture/distance.py', 'impactutils/rupture/utils.py'], [('distance to quadrilateral', 'impactutils/rupture/utils.py'), ('distance dispatch', 'impactutils/rupture/distance.py:get_distance')],
 ['returned distance arrays'])
prop('R04', 'Asking a rupture questions never changes its answers',
 'Any sequence of geometry, distance and serialisation queries on a rupture returns, for each query, the same answer that a freshly built rupture gives, and leaves the rupture, its origin and every argument unchanged. Results handed out can be modified by the caller without affecting the rupture (the origin, which belongs to the caller, excepted), and so can the document it was built from and other ruptures built from the same document.',
 ['histories'],
 'All query sequences up to depth 3 over all public queries for each kind of rupture.',
 'Tests call each query once, in one order.',
 ['impactutils/rupture/base.py', 'impactutils/rupture/quad_rupture.py', 'impactutils/rupture/edge_rupture.py', 'impactutils/rupture/gc2.py', 'impactutils/rupture/distance.py'], [('copies handed out', 'impactutils/rupture/quad_rupture.py:getQuadrilaterals')],
 ['query results'])
prop('R05', 'Generalised strike coordinates follow the rupture trace',
 'For a straight rupture, the strike-parallel and strike-normal coordinates equal the position along and the signed perpendicular distance from the trace (positive on the down-dip side), and the off-end distance is how far the site lies beyond the ends. For bent ruptures and ruptures of several traces, nested, overlapping or listed in opposite directions, they are those of Spudich and Chiou (2015), with the origin at one of the two endpoints furthest apart and the off-end distance measured beyond the outermost end of any trace. Every site, also one exactly on the trace or on a vertex, has finite coordinates. A quadrilateral rupture whose vertices are listed against the strike has the same outline and coordinates as one listed along it. Splitting a straight rupture into segments, permuting or reshaping sites or their depth does not change them, and quadrilateral and edge ruptures of the same shape agree.',
 ['inputs'],
 'All strikes in 15-degree steps x 13 layouts of 1..3 segments in 1..3 traces, times a grid of sites around the trace and on its vertices.',
 'Tests compare a few stored results.',
 ['impactutils/rupture/gc2.py'], [('weights and coordinates', 'impactutils/rupture/gc2.py:_computeGC2')],
 ['returned coordinate arrays'])
prop('R06', 'Ruptures built from a trace or an orientation have the requested geometry',
 'A rupture built from a surface trace or from a reference point and orientation has quadrilaterals whose length, width, strike, dip and top depth are the requested ones, whose lower edge lies on the down-dip side; one built from vertices or edges has exactly those. Reported length, width, area, average dip and strike, top depth, outline, vertex arrays, rupture context and per-quadrilateral utilities (vectors, mesh) agree with the quadrilaterals, and the depth at a point above the rupture is that of its surface there. Inputs of inconsistent length are refused.',
 ['inputs'],
 'Strike 0..345 by 15, dip 10..90, several lengths, widths, depths, 1..3 segments with and without grouping.',
 'Tests build a few fixed ruptures.',
 ['impactutils/rupture/quad_rupture.py', 'impactutils/rupture/utils.py'], [('trace construction', 'impactutils/rupture/quad_rupture.py:fromTrace'), ('orientation construction', 'impactutils/rupture/quad_rupture.py:fromOrientation')],
 ['quadrilateral vertices', 'summary values'])
prop('R07', 'Rupture plots draw the outline of every segment where it is',
 'The three-dimensional plot of a rupture holds, for every quadrilateral of the rupture and in their order, one closed line through exactly its four corners (longitude, latitude, minus depth), on new axes or on the three-dimensional axes given, leaving what these already show untouched; other axes are refused unchanged. The map of a rupture shows its outline at its longitudes and latitudes and reaches five degrees beyond it.',
 ['inputs'],
 'All ruptures of 1..3 groups of 1..3 segments over places, strikes, dips and both rupture classes; the lines on the axes are read back.',
 'The tests only run the plot functions by hand, behind a switch.',
 ['impactutils/rupture/plotrupture.py'], [('3-D drawing', 'impactutils/rupture/plotrupture.py:plot_rupture_wire3d'), ('map', 'impactutils/rupture/plotrupture.py:map_rupture')],
 ['artists on the axes', 'exceptions'])
prop('R08', 'Slip vectors are the sum of their strike and dip parts; plane distance is exact',
 'The local slip vector for a strike, dip and rake is the sum of its strike-slip part and its dip-slip part: the strike-slip part is horizontal along strike with length and sign of the cosine of the rake; the dip-slip part has the length of the sine of the rake and points up the dip of the plane for positive rakes (its north and up components as the plane demands). The slip of a quadrilateral is that vector for its own strike and dip, turned into space where the quadrilateral lies. The distance of a point to the plane through three points is the exact distance, whatever the order of the three points.',
 ['inputs'],
 'All strikes, dips and rakes on a grid, quadrilaterals of several places, strikes and dips with all rakes, and all planes through three points of a lattice with all fourth points, against independent vector geometry. Two mirrored components pinned by the repository tests are recorded as known findings.',
 'The tests compare one value per function; every quadrant of strike and rake has its own signs.',
 ['impactutils/rupture/utils.py'], [('local slip', 'impactutils/rupture/utils.py:get_local_unit_slip_vector'), ('slip in space', 'impactutils/rupture/utils.py:get_quad_slip'), ('plane', 'impactutils/rupture/utils.py:get_distance_to_plane')],
 ['vectors returned', 'distances'])
# ---------------------------------------------------------------- mapping
prop('G01', 'City filters keep exactly the cities that satisfy them',
 'Limiting a city table by bounds (west and south edges excluded, east and north included), great-circle radius, population (the threshold or more) or name pattern keeps exactly the rows that satisfy the criterion, unchanged and in order, combined filters behave like the intersection of the criteria, and no filter alters the original table. Limiting by grid keeps, in every cell of the grid over the bounds of the table, exactly the given number of most populous cities, cell by cell from the south-west in descending population; no city lies outside all cells. Sorting orders the rows by the given column or columns, loading keeps the city rows of the file, and unknown columns or missing required ones are refused.',
 ['inputs','histories'],
 'All small city tables over a coordinate/population alphabet (ties, duplicates, boundary positions, empty results), all filters and all pairs of filters.',
 'The stable tests never reach it (the city file is not in the repository).',
 ['impactutils/mapping/city.py', 'impactutils/mapping/mapcity.py'], [('filters', 'impactutils/mapping/city.py:Cities')],
 ['resulting tables', 'exceptions'])
prop('G05', 'A city table download yields exactly its cities or fails, leaving nothing behind',
 'Loading the GeoNames table without naming a file downloads it and returns exactly the cities of the downloaded table that have a plain name, with their country, position, capital status and population. When the download is refused or breaks off, or the archive is damaged or cut short or does not hold the table, or a row is malformed, the call fails instead of returning part of the table, and a later attempt works. Success or failure, no file or folder is left behind.',
 ['inputs', 'faults'],
 'All tables of up to three rows over usable and broken row kinds, every network fault, every truncation and damaged bytes of the archive, with the temporary directory compared before and after.',
 'Nothing in the stable tests downloads (no network).',
 ['impactutils/mapping/city.py', 'impactutils/mapping/mapcity.py'], [('download', 'impactutils/mapping/city.py:_fetchGeoNames'), ('load', 'impactutils/mapping/city.py:Cities.fromGeoNames')],
 ['resulting table', 'exceptions', 'files in the temporary directory'])
prop('G02', 'Compass directions name the sector that contains the bearing',
 'The compass direction from one place to another names, among the 4, 8 or 16 compass points of the requested resolution, the one nearest to the true bearing, in long or short form as requested, for all bearings and all pairs of places including across the antimeridian and near the poles; unknown resolutions or forms are refused with a key error.',
 ['inputs'],
 'All pairs over a grid of places including antimeridian and high latitudes, both formats, compared with spherical geometry.',
 'The test tries a few pairs.',
 ['impactutils/mapping/compass.py'], [('sector table', 'impactutils/mapping/compass.py:get_compass_dir')],
 ['returned text'])
prop('G03', 'A scale bar has the length its labels state and fits its corner',
 'A drawn scale bar measures, in the data coordinates of the map, exactly the length its last label states in the requested units; its divisions are equal, alternate in colour and the labelled ones carry the right distances (both ends, and every second division when their number is even); and it lies at the requested corner with the requested padding. Without an explicit length the bar uses the length (and number of divisions) of the built-in list closest to a quarter of the map width. Invalid arguments are refused and leave the map unchanged.',
 ['inputs','configurations'],
 'All units x corners x a range of map widths, latitudes and projections, with and without explicit length and divisions.',
 'The test only checks that drawing does not fail.',
 ['impactutils/mapping/scalebar.py'], [('length choice and drawing', 'impactutils/mapping/scalebar.py:draw_scale')],
 ['artists added to the axes', 'exceptions'])

prop('G04', 'City labels on a map never collide, never leave it and prefer larger cities',
 'Drawing cities on a Mercator map (canvas drawn first, as documented) puts labels next to their cities such that no two drawn labels, with their padding, overlap and every one lies completely inside the map, for any map extent, figure shape, axes rectangle and font size. A city inside the bounds is left out only when its cell has too many larger cities, its label would leave the map or it would collide with the label of a larger city. The returned table lists exactly the cities drawn, and neither the given table nor the extent of the map is altered.',
 ['inputs','configurations'],
 'All relative placements of two cities on a lattice, all placements of a city over and beyond the map edges, all population orders of small clusters, over several maps and options; the labels on the axes are measured after drawing.',
 'The test needs a city file that is not in the repository and checks only that drawing does not fail.',
 ['impactutils/mapping/mercatormap.py'], [('collision removal', 'impactutils/mapping/mercatormap.py:limitByMapCollision'), ('label boxes', 'impactutils/mapping/mercatormap.py:getCityBoundingBoxes'), ('label placement', 'impactutils/mapping/mercatormap.py:renderRow')],
 ['labels on the axes', 'returned cities'])
