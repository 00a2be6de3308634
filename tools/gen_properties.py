#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts are kept)."""
import json, os

D, C, M, B, S, X, U, P, T = ('sunspec/core/device.py', 'sunspec/core/client.py', 'sunspec/core/modbus/client.py',
                             'sunspec/core/modbus/mbmap.py', 'sunspec/core/suns.py', 'sunspec/core/smdx.py',
                             'sunspec/core/util.py', 'sunspec/core/pics.py', 'sunspec/core/data.py')
NOSMDX = ('The tests that reach this code need SMDX model files that are not in the tree and stop in setUp; even with them '
          'they use three fixed devices. ')
props = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    assert len(title) <= 80, title
    props.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
                  'why_tests_cant': why, 'anchors': a})


p('C01', 'A scan finds exactly the chain of models the device publishes',
  'Scanning a device whose SunSpec map starts at register 40000, 0 or 50000 (or at one of the base addresses the user listed '
  'instead: the first of them that has a map) yields exactly its models, of whatever size, in device order, each '
  'with the id, start address, length and per-id instance index (from 1) that the registers state, up to the end marker. '
  'A model whose definition is missing or does not fit its reported length is kept in place with its load error and does '
  'not disturb the models after it. Scanning the same device object again gives the same result, a progress callback that '
  'declines stops the scan with an error, and a scan of any register content ends with a model list or a client error.',
  ['inputs', 'configurations'],
  'All chains of 0..3 models over known / unknown / wrong-length / repeated ids, the three base addresses with every pattern '
  'of absent, non-SunSpec and erroring lower candidates, all three transports, re-scans, and all small register images.',
  NOSMDX + 'No test varies the base address, an unknown model, a repeated model or a second scan.',
  [C, D], [('base address probing and model chain walk', C + ' ClientDevice.scan'), ('model list by id', D + ' Device.add_model')],
  ['models_list / models / base_addr of the client device', 'exception raised by scan'])

p('C02', 'A model instance is laid out as its definition and length dictate',
  'A loaded model consists of the fixed block followed by as many repeating blocks as fill the length reported by the device '
  '(the definition length when none is given), and each point sits at its block start plus its defined offset, with padding '
  'and scale factor registers kept out of the value points. Each scaled point is bound to its constant scale factor, else to '
  'the scale factor point in its own block, else to the one in the fixed block; an unresolvable one, or a length that the '
  'blocks cannot fill exactly when the model repeats (or that the fixed block exceeds), is rejected with a SunSpec error. '
  'The 65-register legacy common model loads too. Loading a model again replaces what an earlier load, successful or not, left.',
  ['inputs', 'programs'],
  'All model definitions with up to 3 fixed and 2 repeating points over a point alphabet covering each width, padding, scale '
  'factors and every way to reference them, times 0..3 repeats and lengths off by -1, 0, +1.',
  NOSMDX + 'Only test_block_past_end_of_model runs: one definition, one length.',
  [D, X, S], [('block/point instantiation, length check, scale factor resolution', D + ' Model.load')],
  ['blocks, points_list, points, points_sf, addr, sf_point of the loaded model'])

p('C03', 'Reading a model mirrors the device registers, completely or not at all',
  'After a successful read every point of the model shows exactly what the device registers at its address hold at that '
  'time, whatever it showed before and however long the model is. The requests sent stay inside the model, never split one '
  'point over two requests and never ask for more than 125 registers. A read that fails leaves every point value and scale '
  'factor as it was.',
  ['inputs', 'histories', 'fault_sequences'],
  'All model lengths and point widths around the 125-register boundaries (multi-request models), all orders of register '
  'changes and reads up to a depth, and one failure of each kind at each request of a read.',
  NOSMDX + 'No test covers a model above 125 registers, a re-read after a device change, or a failing read.',
  [C, D, M], [('read request boundaries', D + ' Model.load read_blocks'), ('read and decode', C + ' ClientModel.read_points')],
  ['point values after read', 'requests seen by a simulated device'])

p('C04', 'Every point type decodes and encodes its registers faithfully',
  'For every SunSpec point type each register pattern reads as the value the standard assigns to it (big-endian, signed or '
  'unsigned as named, strings without trailing nulls), and the pattern that marks the type as unimplemented reads as no '
  'value. Writing a value produces exactly as many registers as the point has, which read back as the same value; a string '
  'longer than its point is cut to the point. A number outside the range of its type is refused and nothing is written.',
  ['inputs'],
  'All 65536 patterns of each 16-bit type; all byte-lane patterns over boundary backgrounds of the 32-, 48-, 64- and 128-bit '
  'types; all exponent/sign/mantissa-boundary floats; all string lengths times contents lengths; all range boundaries.',
  'test_util samples one or two values per conversion and never a point-type table entry, an unimplemented marker or a '
  'write through a point.',
  [U, S, C, X], [('conversions', U + ' data_to_* / *_to_data'), ('per-type table', S + ' suns_point_type_info')],
  ['value of a point read from, and registers written to, a simulated device', 'the conversion functions themselves'])

p('C05', 'Scale factors are applied exactly and reversibly',
  'The value of a scaled point is its register value times ten to the power of its scale factor as last read, and assigning a '
  'value stores the nearest register value, so that assigning back a value just read changes nothing. Points without a scale '
  'factor, or whose scale factor is unimplemented, use the register value as it is. A scaled point that is unimplemented has '
  'no value, yet a value assigned to it is scaled like any other; 64-bit points do all this within the precision of a float.',
  ['inputs', 'histories'],
  'All 65536 register values of the 16-bit types times all scale factors -10..10 and unimplemented; boundary values of the '
  'wider types; constant, local and fixed-block scale factors; changes of the scale factor between reads.',
  NOSMDX + 'The few value tests (all failing for lack of models) use single values.',
  [D, C], [('value property', D + ' Point.value_getter/value_setter'), ('scale factor refresh', C + ' ClientModel.read_points'),
           ('scale factor from a document', D + ' Block.from_pics')],
  ['point.value, point.value_base, registers written'])

p('C06', 'A write sends exactly the points modified since the last write or read',
  'Whatever sequence of assignments, reads and writes precedes it, writing a model stores in the device the current value of '
  'each value point assigned since the last read or successful write, and touches no other register: no unmodified point, '
  'padding, scale factor or neighbouring model. No point that fits into a request is split over two. A second write sends nothing. '
  'Writing a single point sends that point only.',
  ['histories', 'inputs'],
  'All sequences of assign / write / read / single-point write / device-side change over a model with adjacent, multi-register '
  'and separated points and two repeating blocks, explored to closure or depth bound; all subsets of points modified.',
  NOSMDX + 'One hand-written sequence (failing for lack of models).',
  [C, D], [('dirty tracking', D + ' Point.value_setter'), ('contiguous runs', C + ' ClientModel.write_points'),
           ('single point', C + ' ClientPoint.write')],
  ['registers and requests of a simulated device'], [('dirty', 'assigned but not yet sent', D + ' Point.dirty')])

p('C07', 'A failed write loses no modification',
  'If a write fails at any request, with any transport error, device exception or unencodable value, every modified point '
  'either already has its new value in the device or is still pending, so that the next successful write completes the '
  'update. No register of an unmodified point changes on the way.',
  ['fault_sequences', 'histories'],
  'All subsets of modified points times every request of the write failing before or after the device applied it, in up to '
  'two rounds, then a healthy write.',
  'No test injects a write failure.',
  [C, D, M], [('dirty flag cleared only for sent points', C + ' ClientModel.write_points, ClientPoint.write')],
  ['registers of a simulated device after recovery'], [('dirty', 'assigned but not yet sent', D + ' Point.dirty')])

p('C08', 'Modbus RTU transfers move exactly the requested registers',
  'Reading or writing any number of registers over a serial line sends only well-formed frames for the addressed slave '
  '(function, address, count, data, valid CRC), each within the configured maximum per request and the Modbus limits (125 '
  'registers read, 123 written), covering the range once, in order. The returned bytes are the device registers in address '
  'order, and the device ends up with the data written, however the replies are split into pieces on arrival. The CRC '
  'agrees with the Modbus definition for every message.',
  ['inputs', 'schedules', 'configurations'],
  'All counts 1..3*max+1 for a range of per-request maxima, all compositions of short replies into arrival pieces, bounded '
  'numbers of splits of long ones, all 1- and 2-byte CRC inputs plus longer ones.',
  'Four tests, each one 2-register transfer delivered in one piece.',
  [M], [('framing and CRC', M + ' ModbusClientRTU._read/_write, computeCRC'), ('chunking', M + ' ModbusClientRTU.read/write')],
  ['bytes on a simulated serial line', 'returned data', 'registers of the simulated device'])

p('C09', 'Modbus TCP transfers move exactly the requested registers',
  'Reading or writing any number of registers over TCP sends only well-formed requests for the addressed unit (header '
  'length, function, address, count, data), each within the configured maximum per request and the Modbus limits (125 '
  'registers read, 123 written), covering the range once, in order. The returned bytes are the device registers in address '
  'order, and the device ends up with the data written, however the replies are split into segments on arrival.',
  ['inputs', 'schedules', 'configurations'],
  'All counts 1..3*max+1 for a range of per-request maxima, all compositions of short replies into segments, bounded numbers '
  'of splits of long ones.',
  'Two tests, each one 2-register transfer delivered in one piece; no write above one request is tried.',
  [M], [('framing', M + ' ModbusClientDeviceTCP._read/_write'), ('chunking', M + ' ModbusClientDeviceTCP.read/write')],
  ['bytes on a simulated socket', 'returned data', 'registers of the simulated device'])

p('C10', 'A damaged, foreign, failed or missing reply never passes as data',
  'A read returns all requested registers or raises: a reply that is truncated, has a bad CRC, comes from another serial '
  'slave, answers another function or has the wrong length raises a Modbus client error, a device exception raises the '
  'exception error naming its code (a damaged or foreign reply is not taken for one), and silence raises the timeout error. A write raises likewise when its acknowledgement '
  'is missing, damaged, an exception, or (serial) acknowledges something else. After any such failure the next request to a '
  'healthy device returns that request\'s own data, even if late bytes of the failed reply have arrived meanwhile.',
  ['fault_sequences', 'inputs'],
  'Every single-bit and double-bit corruption and every truncation of serial replies, every exception code, every wrong '
  'slave/function/length, at each request of single- and multi-request transfers, on both transports, then a healthy request.',
  'No test sends a bad reply.',
  [M], [('CRC, exception and format checks', M + ' _read/_write of both clients'), ('input flush before a request', M + ' ModbusClientRTU')],
  ['exception type/text or data of each request on a simulated wire'])

p('C11', 'TCP connections are opened, reused, released and recovered correctly',
  'A request made without a connection opens exactly one and closes it again whether or not the request succeeds; after an '
  'explicit connect all requests share that connection until disconnect or close, which may be repeated safely. After any '
  'failure (refused connection, timeout, reset, end of stream, at any point of any request) the device object remains usable: '
  'the next request to a healthy device succeeds. No more than one connection is ever open, and none after close.',
  ['histories', 'fault_sequences'],
  'All sequences up to depth 5 of connect / disconnect / close / read / write with each kind of fault at each socket call, '
  'deduplicated by state, and scans with a fault at each request.',
  'The tests use one pre-connected fake socket and never connect.',
  [M, C], [('connection handling', M + ' ModbusClientDeviceTCP.connect/disconnect/read/write'), ('scan connection', C + ' ClientDevice.scan')],
  ['connections opened/closed on a simulated network', 'results of requests'], [('socket', 'current connection or None', M)])

p('C12', 'Devices on one serial port share it until the last one is closed',
  'All device objects on a port use one open port with the settings of the first; asking for other settings than those in '
  'use is refused without disturbing the others. The port stays open and usable for every device object not yet closed, '
  'is released when the last is closed, and can then be opened again with new settings. Closing a device object twice, or '
  'several objects for the same slave, changes none of this.',
  ['histories', 'configurations'],
  'All sequences up to depth 6 of opening (2 ports, 2 slaves, matching / mismatching / default settings), closing (also '
  'twice) and reading, deduplicated by state.',
  'The tests open and close one device at a time.',
  [M], [('client registry', M + ' modbus_rtu_client/modbus_rtu_client_remove'), ('device set', M + ' ModbusClientRTU.add_device/remove_device')],
  ['open handles of a simulated serial driver', 'reads through each device object'], [('registry', 'port name to open client', M)])

p('C13', 'Failures surface as the library\'s own error types and leak nothing',
  'Whatever goes wrong on the line or in the device during construction, scan, read or write of a client device, on every '
  'transport, the caller sees a SunSpec client error (a Modbus client error, with timeouts and device exceptions as their '
  'subtypes, when using the Modbus device objects directly) and no other exception. A device object whose construction '
  'fails leaves no connection or port open.',
  ['fault_sequences', 'configurations'],
  'Every public operation times every transport times every fault kind at every I/O call it makes, plus hostile device '
  'content (addresses running off the register space).',
  'No test makes an operation fail at the transport.',
  [C, M, B], [('error translation', C + ' ClientDevice.*'), ('wrapper cleanup', C + ' SunSpecClientDevice.__init__')],
  ['type of the exception raised', 'open handles afterwards'])

p('C14', 'A Modbus map behaves as a sparse array of registers',
  'After any sequence of adding register blocks and writing, reading any range of a map returns, for each register, the last '
  'data written to it (zero if added and never written). A read or write that touches a register which was never added is '
  'refused with a map error, as are overlapping or descending additions, odd-length data and a mismatched function, and '
  'refused operations leave the map unchanged.',
  ['histories', 'inputs'],
  'All sequences up to a depth of additions by offset or address, explicit block insertions and writes, then every range '
  'read, against a dictionary of registers.',
  'Tests read whole XML files and make one addition; no read or write of a map is tested on its own.',
  [B], [('range walk over blocks', B + ' ModbusMap.read/write'), ('block access', B + ' ModbusMapRegs.read/write/append'), ('addition', B + ' ModbusMap.regs_add')],
  ['ModbusMap.read / write results'])

p('C15', 'Modbus map documents load and round-trip faithfully',
  'Loading a map document places the big-endian encoding of each entry, by its type, at its explicit offset or right after the '
  'previous entry, padded with nulls to its declared length, whether read from a file, a path list or an element; hex dumps '
  'load as the listed bytes. Overlapping or descending offsets, unknown types or functions and out-of-range values are refused '
  'with a map error. Writing a map as XML and loading it again gives an equal, equally readable map, and the map comparison '
  'reports a difference exactly when base address, function, access or any register differs.',
  ['inputs', 'programs'],
  'All documents of up to 3 entries over every entry type and boundary value, explicit and implicit offsets, gaps, explicit '
  'and derived lengths, and map attributes; all single-register differences.',
  'Five sample files of one map; derived lengths and the full round trip are not covered.',
  [B], [('load', B + ' ModbusMap.from_xml/from_hex'), ('save', B + ' ModbusMap.to_xml'), ('compare', B + ' ModbusMap.not_equal')],
  ['registers read from the loaded map', 'error raised'])

p('C16', 'PICS documents reproduce the device they describe',
  'Writing a device (all repeating blocks) as a PICS element and loading it gives an equal device: same models with id, length '
  'and instance index, same blocks, same point values, scale factors and unimplemented points. A document loads with or '
  'without base address, model length and instance indexes, with numbers in decimal or hex, and a repeating block without index '
  'applies to all of them, which is also how a document written with only the first repeating block loads. Malformed '
  'documents are refused with a SunSpec error.',
  ['inputs', 'programs'],
  'All assignments of {value, other value, unimplemented} to the points of a model with local, fixed and constant scale '
  'factors and 0..3 repeating blocks; all point types at boundary values; all combinations of optional attributes.',
  NOSMDX + 'Two sample documents.',
  [D, P], [('load', D + ' Device/Model/Block/Point.from_pics'), ('save', D + ' to_pics')],
  ['values of the reloaded device', 'the XML written'])

p('C17', 'SunSpec data records survive XML in both directions',
  'A data record built through the API and written as XML, pretty-printed or not, loads back with the same devices, models '
  'and points: every identifying attribute, timestamp, namespace, index, scale factor and value text. Writing a loaded record '
  'again gives the same XML, and a document with anything else in place of a device, model or point is refused.',
  ['inputs', 'programs'],
  'All records of up to 2 devices, 2 models, 2 points with every subset of optional attributes present, and values of each '
  'kind including characters that XML must escape.',
  'One test writes one record with no index, namespace or scale factor and reads nothing back.',
  [T, U], [('build', T + ' device_add/model_add/point_add'), ('load', T + ' from_xml'), ('save', T + ' to_xml/to_xml_str'), ('indentation', U + ' indent')],
  ['attributes of the reloaded objects', 'XML text'])

p('C18', 'Documents are found on path lists in order, in directories and zip files',
  'Looking up a file on a path list returns the content of the first entry, in the order added, that contains it, whether an '
  'entry is a directory, a zip file or a directory inside a zip file, and whatever mixture of missing, empty and zip entries '
  'precedes it; paths mean what they mean to the operating system, symbolic links and all; if none has it the lookup fails with a name error. Model definitions and PICS documents come from the '
  'given path list first, then the module-wide path list, then the current directory (then the packaged definitions), and '
  'a temporary path list is undone when its scope ends.',
  ['configurations', 'inputs'],
  'All path lists of up to 3 (4 thorough) entries over directory / missing directory / zip root / zip subdirectory / missing '
  'zip / relative and trailing-separator forms, times which entries contain the file; all source subsets for the documents.',
  'Tests use one list of two plain directories.',
  [U, D], [('search', U + ' PathList.read'), ('lookup order', D + ' model_type_get, Device.from_pics'), ('scoped list', D + ' fresh_file_pathlist')],
  ['bytes returned or NameError'])

p('C19', 'The scripting objects mirror the underlying device',
  'The scripting device lists its models by definition name (a generic name by id when unknown) in device order, giving the '
  'model itself, or, when a model occurs several times, a list whose elements 1..n are the instances in order. Each value point '
  'is readable and assignable by attribute and by item on its model or on its repeating block (numbered from 1, under the '
  'generic and the defined block name), always showing and changing the corresponding point of the underlying device and no '
  'other. Read and write through these objects act on exactly that model.',
  ['configurations', 'histories'],
  'All device configurations of up to 3 models over single / repeated / unknown / with 0..3 named or unnamed repeating '
  'blocks, every point of each assigned through every access path, then written and re-read.',
  NOSMDX + 'Two sample devices (failing for lack of models).',
  [C], [('wrapper construction', C + ' SunSpecClientDevice.__init__, model_class_get'), ('properties', C + ' _get_property/_set_property')],
  ['attribute and item values', 'registers of a simulated device'])

p('C20', 'Model definitions load faithfully or are refused',
  'Loading an SMDX definition yields its id, length, name, blocks and points with offset, type, length, access, mandatory '
  'flag, units and scale factor as written (defaults where absent), its texts from the strings section, and per point its own '
  'symbols with values and texts even when points share symbol ids. Definitions that are damaged, lack required attributes, or have unknown '
  'types, access or mandatory values, duplicate points or duplicate blocks are refused with a SunSpec error. File names and '
  'model ids correspond one to one.',
  ['inputs', 'programs'],
  'All combinations of present / absent / invalid attributes per element, all point types, 0..2 symbols per point with '
  'shared ids and with or without strings, and all model ids 1..65535 for file names.',
  NOSMDX + 'Definition parsing is never reached by a passing test except one trivial model.',
  [D, X], [('parsing', D + ' ModelType/BlockType/PointType/Symbol.from_smdx'), ('names', X + ' model_id_to_filename, model_filename_to_id')],
  ['attributes of the loaded model type', 'error raised'])

p('C21', 'Tracing changes nothing but the trace',
  'With a trace function set, every read and write on either transport sends the same bytes, returns the same data and fails '
  'in the same way as without it. The trace shows the bytes of every request and of every complete reply as hexadecimal, in '
  'the order they went over the line.',
  ['configurations', 'fault_sequences'],
  'All operations of a transfer alphabet on both transports with healthy replies, exceptions and each fault, with and without '
  'tracing.',
  'All tests run with tracing off.',
  [M], [('trace calls', M + ' _read/_write of both clients')],
  ['differential run with and without trace function', 'trace lines'])

p('C22', 'Device comparison reports a difference exactly when there is one',
  'Two devices built independently from the same content compare equal, whatever their models (with symbols, repeating '
  'blocks, unknown ids). If they differ in the number or kind of models, in the number of blocks, in any point value or '
  'applied scale factor, or in any attribute of a model, block or point definition, the comparison returns a description of '
  'a difference, in both directions.',
  ['inputs', 'programs'],
  'All pairs from a family of devices and definitions obtained by every single-attribute change, including present versus '
  'absent.',
  'Tests compare hand-made equal types; no unequal pair is tried.',
  [D], [('comparison', D + ' not_equal of Device/Model/Block/Point and of the types')],
  ['result of not_equal'])

p('C23', 'TLS connections are verified unless verification is switched off',
  'With TLS enabled, Modbus requests travel only inside a TLS session, and only to a server whose certificate chains to the '
  'given authority and matches the device address; otherwise connecting fails with a Modbus client error and no request is '
  'sent. With verification switched off, the session is set up regardless of the certificate. The client certificate given '
  'is the one presented, and without TLS plain Modbus TCP is used.',
  ['configurations'],
  'All combinations of TLS on/off, verification on/off, and server certificates trusted / untrusted / for another host / '
  'expired, with a server demanding a client certificate or not, over real TLS handshakes on loopback.',
  'No test uses TLS.',
  [M], [('context setup', M + ' ModbusClientDeviceTCP.connect')],
  ['what a loopback server receives', 'exception raised'])

p('C24', 'The command-line report shows every implemented point of the device',
  'The suns command prints, for the device it is pointed at, each model in device order (including models without a '
  'definition) and under it each implemented value point, with repeating block number, label, id, scaled value (bit fields '
  'in hexadecimal) and units, and nothing for unimplemented points. A device that cannot be read yields an error message '
  'and exit status 1 rather than a crash.',
  ['configurations', 'inputs'],
  'All device configurations of up to 3 models over known / unknown / repeating / with unimplemented points, labelled and '
  'unlabelled, bit fields and strings, on each transport, and failing devices.',
  'The script has no tests.',
  ['scripts/suns.py', C, D], [('report', 'scripts/suns.py')],
  ['standard output and exit status'])

p('C25', 'The transports are interchangeable',
  'The same device content reached over Modbus TCP, Modbus RTU or a Modbus map file gives the same scan result, the same '
  'point values after the same reads and the same registers after the same assignments and writes. A request the device must '
  'refuse (registers it does not have) fails on each of them with a client error and changes nothing.',
  ['configurations', 'histories'],
  'All operation sequences up to a depth (scan, read, assign, write, raw read, raw write in and out of range) run in lockstep '
  'on the three transports over several device images and base addresses.',
  'Tests never compare transports.',
  [C, M, B], [('transport selection', C + ' ClientDevice.__init__'), ('three implementations of read/write', M)],
  ['lockstep comparison of results, values and registers'])

p('C26', 'Device objects used from different threads do not disturb each other',
  'Threads that each use their own objects (client and scripting devices over TCP, over different serial ports or map files, '
  'maps, definitions, PICS documents, data records) get exactly the results, send exactly the requests and leave their '
  'devices in exactly the state they would if they ran alone, however their execution is interleaved. This holds from '
  'creation to close, also while other threads fail, and for devices with the same models.',
  ['schedules'],
  'All schedules of two threads running library programs with one switch before any line, of two switches (and of three '
  'threads) before lines that use module-wide state.',
  'All tests are single threaded; a test would sample one schedule.',
  [C, M, D], [('classes made at run time and put into the module', C + ' model_class_get, SunSpecClientModelBase'),
              ('registry of serial ports', M + ' modbus_rtu_client, ModbusClientRTU (one port is documented as single threaded)'),
              ('cache of definitions, path list', D + ' model_type_get, file_pathlist')],
  ['results, requests received and registers per thread'],
  [('modbus_rtu_clients', 'open serial ports by name', M), ('model_types, file_pathlist', 'definitions loaded, where to look', D),
   ('module globals Model<id>', 'last class made for a model', C)])

p('C27', 'What is printed is what the device holds',
  'The text of a scripting device, model or repeating block shows the model name and id, then each implemented value point with its '
  'scaled value, in definition order, then the repeating blocks with name and number; nothing is shown for points that are not '
  'implemented or have not been read, and every instance of a model that occurs several times is shown. The text of a core device, '
  'model or block names each value point with its address and register value in order. Printing never fails, changes nothing and '
  'sends nothing to the device.',
  ['inputs', 'histories'],
  'All register patterns of every type; all chains of up to 3 models over known / unknown / repeating / repeated models before and after '
  'reading, assigning and reading again; histories of reads, assignments and writes.',
  'No test prints anything.',
  [C, D], [('scripting texts', C + ' SunSpecClientModelBase, SunSpecClientBlockBase, SunSpecClientDevice.__str__'),
           ('core texts', D + ' Device, Model, Block, Point.__str__'), ('documented output', 'doc/pysunspec.rst')],
  ['str() of the objects', 'state before and after', 'requests received'])

p('C28', 'A document means the same wherever it is found and however it is encoded',
  'A model definition, PICS file, Modbus map or data record yields the same definitions, values, registers and texts whichever XML encoding '
  'it declares (UTF-8 with or without mark, UTF-16, ISO-8859-1, ...), whether characters are written directly or as references, entities or '
  'CDATA sections, whatever its line ends, quotes, order of attributes, comments and processing instructions (anywhere), wherever it is found (path list, module path list, zip file, current directory, absolute name, element, text) and whatever the '
  'preferred encoding of the process. Comments of a hex dump may be in any encoding.',
  ['inputs', 'configurations'],
  'The product of document kinds, texts, encodings, ways of writing the same XML, line ends, places and process locales; each place is read by its own code.',
  'The tests load ASCII documents under one locale.',
  [D, 'sunspec/core/modbus/mbmap.py'], [('definitions and PICS', D + ' model_type_get, Device.from_pics'),
           ('maps and hex dumps', 'sunspec/core/modbus/mbmap.py from_xml, from_hex'), ('path lists', 'sunspec/core/util.py PathList.read')],
  ['loaded definitions, values, registers', 'exceptions'])

p('C29', 'An interrupted operation leaves device objects fit for use',
  'An operation that is ended by an interruption (KeyboardInterrupt, SystemExit, the timeout of a scheduler, ...) during any request, connection '
  'attempt, delay, callback or at any other point of the library, also while a definition or document is loaded, passes that exception on unchanged, and '
  'can be repeated. No connection or port opened for the operation stays open, modifications that '
  'were not acknowledged stay pending, values are those before or after the read of a request, and the next operations on the same object yield the '
  'data of their own requests, never the reply to an interrupted one. Other objects on the same port are not disturbed. Not claimed: interruptions of '
  'a close, or between the creation of a connection or port and its first use; values when a read is interrupted while it stores them.',
  ['inputs', 'fault_sequences', 'histories'],
  'Every I/O call, sleep and callback of every operation on every transport, before and after it, with each kind of interruption, followed by every '
  'other operation; pairs of interruptions.',
  'No test interrupts anything.',
  [C, M], [('connection handling and error paths', M + ' ModbusClientDeviceTCP.connect, read, write'), ('serial requests', M + ' ModbusClientRTU'),
           ('scan, construction of scripting devices, pending writes', C + ' ClientDevice.scan, SunSpecClientDevice, ClientModel.write_points')],
  ['exceptions', 'open connections and ports', 'values and registers after the next operation'])

p('C30', 'Devices are reached with the settings they were given',
  'The address, port, baud rate, parity, timeout and slave id given to a device object of any layer (raw Modbus device, client device, scripting '
  'device) are those in force for every connection it makes, every port it opens and every request it sends: the first, those after failures, '
  'disconnects, closes and explicit connects, and those next to other objects with other settings, also of one on the same serial port that asks for no timeout. Port 502, 9600 baud and no parity stand in for '
  'those not given, and some timeout is always in force. A timeout given to an explicit connect applies to that connection.',
  ['configurations', 'histories'],
  'The product of settings and layers with every short history of requests, failures, connects and closes; the settings are read off at every single '
  'call of the network and serial libraries.',
  'No test opens a connection or a port.',
  [C, M], [('device constructors', C + ' ClientDevice.__init__, SunSpecClientDevice.__init__'),
           ('connections and ports', M + ' ModbusClientDeviceTCP.connect, ModbusClientRTU.open, modbus_rtu_client')],
  ['arguments and timeouts of connect / send / receive and of serial ports', 'unit ids in requests'])

p('C31', 'Operations send only the requests they call for, each of them once',
  'The device is sent only what an operation calls for, addressed to the unit given: creating a client device, using, assigning, printing, comparing, '
  'exporting, connecting and closing send nothing; scans and reads send nothing but reads, a scan only within the map up to its end marker, a read for '
  'exactly the registers of what is read, each once; writes come only from write operations and cover exactly the registers to write, each once. When a '
  'request fails (device exception, silence, broken connection, ...) it is not sent again and nothing else follows in that operation, except that a scan '
  'goes on to its next base address. An operation whose requests are answered does not wait; silence costs one timeout (a scan: one per base address). '
  'A scan asked to pause waits that long between the base addresses it tries and between models, and reports each model it finds.',
  ['histories', 'fault_sequences'],
  'Every history of operations, and every fault at every request, with every request on the wire accounted for.',
  'Tests compare results; requests nobody asked for, repeated or to others do not show in them.',
  [C, M, D], [('operations', C + ' ClientDevice.scan/read/write/read_points, ClientModel.read_points/write_points, ClientPoint.write, SunSpecClient*'),
           ('requests', M + ' ModbusClientRTU._read/_write, ModbusClientDeviceTCP._read/_write')],
  ['requests received by simulated devices and the simulated clock'])

p('C32', 'Objects do not influence each other or what they are given',
  'However the operations on two objects (client, scripting and Modbus devices on any transport, core devices, maps, definitions, data records, path lists) '
  'follow one another, each gives the results, sends the requests and ends in the state it would without the other, also when both are created from the '
  'same documents, elements, path lists and base address lists, use different definitions of the same model, talk to different units behind one address or '
  'on one serial port, or the other one fails or is closed. What the caller passes in (elements, path lists, lists of base addresses) is not modified, nor is '
  'what belongs to the whole program (default socket timeout, working directory, environment, signal handlers, standard streams, locale, module search path).',
  ['histories'],
  'All interleavings of all short histories of two objects of every pair of kinds, each compared with the history alone.',
  'Tests use one object at a time and do not look at their arguments afterwards.',
  [C, D, M, B, T, U], [('class and module state', C + ' model_class_get; ' + D + ' model_type_get, file_pathlist; ' + M + ' modbus_rtu_clients'),
           ('instance state', 'constructors of ClientDevice, Device, ModbusMap, SunSpecData, ModelType, PathList'),
           ('documents', D + ' Device.from_pics, ModelType.from_smdx; ' + B + ' ModbusMap.from_xml; ' + T + ' SunSpecData.from_xml')],
  ['results and final states of objects, requests, arguments before and after'])

p('C33', 'Use can be repeated without end: the same results, nothing accumulates',
  'Any operation, or cycle of operations, can be repeated as often as wanted: polling, writing, rescanning, reloading, creating and closing further devices on '
  'any transport, loading documents, and operations that fail. Once the values involved have settled, every repetition gives the same results, sends the '
  'same requests and takes the same time as the one before, and nothing accumulates from one to the next: no connections, ports, files, threads, objects, '
  'entries in tables of the library, classes, search paths or environment settings.',
  ['histories', 'configurations'],
  'All cycles of operations up to a length around a device in use in 8 ways, several laps each; state, requests and times of each lap compared.',
  'Tests do things once; what a monitoring process does a million times shows only in the growth from one time to the next.',
  [C, D, M, B, T, U], [('tables of the library', D + ' model_types; ' + M + ' modbus_rtu_clients; ' + C + ' model_class_get'),
           ('connections and ports', M + ' ModbusClientDeviceTCP, ModbusClientRTU'),
           ('models and blocks of a device', C + ' ClientDevice.scan, SunSpecClientDevice; ' + D + ' Device.add_model, Model.load')],
  ['results, requests and simulated time per lap', 'reachable objects, gc objects, open connections, ports and files, threads, environment per lap'])

p('C34', 'A damaged document is refused cleanly and harms nothing else',
  'However a PICS file, model definition, Modbus map or data record is damaged (cut, bytes lost or changed, attributes, texts or elements missing, changed, doubled '
  'or moved, an encoding declared that nobody knows), loading it in any way, by any object that needs it, either loads a document or fails with the library\'s own '
  'error for that kind of document; what is not XML never loads, nor does a PICS file or data record with an element of another kind. If it loads, the points that '
  'the damage does not touch are as they were. A scan of a device, one of whose models has a damaged definition, still finds and reads the other models. Loading a '
  'damaged document again gives the same, leaves no file open and the path lists in place, and good documents load afterwards as before.',
  ['inputs', 'configurations'],
  'All cuts, all single-byte damages, all single (thorough: pairs of) edits of attributes, texts and elements of each kind of document, through each way of loading.',
  'Tests load good documents only.',
  [D, B, 'sunspec/core/data.py', C], [('PICS and definitions', D + ' Device.from_pics, model_type_get, ModelType.from_smdx'), ('maps', B + ' ModbusMap.from_xml'),
   ('records', 'sunspec/core/data.py SunSpecData.from_xml'), ('scan with an unusable definition', C + ' ClientDevice.scan')],
  ['type of the exception', 'values of the parts not damaged', 'open files', 'what loads afterwards'])

p('C35', 'Only the calls count: time, threads, memory and settings change nothing',
  'What an operation of any object returns, sends and leaves open follows from the operations and arguments so far, not from the surroundings: not from the time that '
  'passed between operations or the clock being set, not from the thread, stack depth, exception handler, generator, finaliser or tracer it is called under, not from '
  'garbage collections, warnings made errors, missing output streams, the directory, environment, time zone, random state, decimal context or default socket timeout of '
  'the program, not from how many other objects are in use, nor from the settings of the interpreter (optimised, development mode, bytes warnings, hash seed, locale, '
  'UTF-8 mode), not from what becomes of the elements, documents, definition files and map files once they were loaded, and progress and trace functions may use the library '
  'themselves. The models, blocks, points, wrappers, registers and underlying device taken from an object go on working the same when the object itself is dropped.',
  ['histories', 'configurations', 'schedules'],
  'Every history of operations times every change of the surroundings at every step, and every moment of dropping the owner.',
  'Tests run in one environment, one thread and at once.',
  [C, D, M, B, 'sunspec/core/data.py', 'sunspec/core/util.py'], [('objects', C + ' ClientDevice, SunSpecClientDevice; ' + D + ' Device, ModelType; ' + M + ' ModbusClientDevice*; ' + B + ' ModbusMap'),
   ('files', 'sunspec/core/util.py PathList.read; ' + D + ' from_pics, model_type_get'), ('times', 'sunspec/core/data.py timestamp_add')],
  ['results, requests and final states compared between surroundings', 'open connections and ports'])

p('C36', 'Arguments mean the same by position, by name and left out, and each has effect',
  'Every public constructor and operation accepts its documented parameters, in the documented order, under the documented names and with the documented defaults: which '
  'arguments are given by position, which by name and which defaults are left out never changes the object made, the value returned, the requests sent, the texts traced, the '
  'progress reported, the connections opened or the exception raised; and every documented argument that applies to the kind of device has its effect (it is not dropped on '
  'the way through the layers: a baud rate, parity, port, TLS setting, timeout, trace, progress callback, delay, namespace, function or limit given at the top arrives at the bottom). A value that may be '
  'spelled in several ways (a unit, model id or base address as number or text, data and documents as text or bytes, a directory as text or path object) means the same in each.',
  ['inputs', 'programs'],
  'Every set of given arguments times every split into positional and named ones, for every operation.',
  'Tests write each call in one way.',
  [C, D, M, B, 'sunspec/core/data.py', 'sunspec/core/util.py'], [('constructors', C + ' ClientDevice, SunSpecClientDevice, ClientModel; ' + M + ' ModbusClientDevice*; ' + D + ' Device, Model, ModelType, BlockType, PointType'),
   ('records', 'sunspec/core/data.py SunSpecData, DeviceData, ModelData, PointData'), ('maps', B + ' ModbusMap, ModbusMapRegs')],
  ['object, result, requests, traces, progress, connections compared with the call that names every argument', 'effect of each argument'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in props:
        f.write(json.dumps(x) + '\n')
print(len(props), 'properties')
