"""Writes /verif/properties.jsonl (kept as code so that statements are easy to review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

p('C01', 'Byte accounting: never more than the buffer, never a panic',
  'A call that decodes from or encodes into a buffer reports at most as many bytes as the buffer holds, an encoder changes nothing in the buffer beyond the bytes it reports, and no call panics, overflows or indexes out of range, whatever the buffer, the announced end of stream and the calls made before. A call that succeeds stops short of the end of the buffer only when an item is complete (or a slice quota is used up).',
  ['inputs', 'histories'], 'every codec and combinator, every buffer content and length including empty, every Eos, every history of calls the documentation allows',
  'Tests run each codec on one or two fixed buffers; the arithmetic on offsets and remaining counts is only wrong for particular splits and for extreme announced sizes.',
  ['src/bytes.rs', 'src/combinator.rs', 'src/tuple.rs', 'src/monolithic.rs', 'src/io.rs'],
  [('offset arithmetic of the byte codecs', 'src/bytes.rs'), ('remaining-byte arithmetic of Length/MaxBytes/Slice', 'src/combinator.rs'), ('saturating byte counts', 'src/byte_count.rs, src/eos.rs')])

p('C02', 'Incremental coding equals the format, however the bytes are split',
  'Feeding a stream to a decoder in any sequence of pieces gives exactly the items, or the error, and the number of consumed bytes that the format of that decoder defines for the concatenated stream; an encoder given any sequence of output buffers writes exactly the bytes that the format defines for its item. A decoder or encoder that has finished an item handles the next one as if it were new (a decoder that collects a given number of items: once the number has been set again); an item that is refused when it is finished is over, and the next one starts as if it were new (not for the components of a tuple).',
  ['inputs', 'schedules', 'histories'], 'all streams and items, all partitions into buffers (including empty ones), all nestings of combinators, all numbers of consecutive items',
  'The number of partitions is exponential and nestings are unbounded; the tests feed most codecs whole buffers and reuse almost none of them for a second item.',
  ['src/decode.rs', 'src/encode.rs', 'src/bytes.rs', 'src/combinator.rs', 'src/tuple.rs', 'src/fixnum.rs', 'src/monolithic.rs'],
  [('Decode::decode / finish_decoding protocol', 'src/decode.rs'), ('Encode::encode / start_encoding protocol', 'src/encode.rs')])

p('C03', 'Fixed-width numbers: exact byte order, width and range',
  'Every fixed-width integer or float decoder reads exactly its width in bytes and yields the value that its byte order and width define for those bytes, and the encoder of the same name writes exactly those bytes for that value. A value that does not fit an odd-width (24, 40, 48 or 56 bit) encoder is rejected with InvalidInput and writes nothing.',
  ['inputs'], 'every value of every type (all 2^8 to 2^64 values, all float bit patterns) and every byte string of the width',
  'Tests check one value per type; a wrong shift, a swapped byte or a wrong bound shows only on other values.',
  ['src/fixnum.rs'], [('fixnum codec macros over byteorder', 'src/fixnum.rs')])

p('C04', 'Raw bytes and UTF-8 pass through unchanged',
  'The byte and string codecs reproduce the content exactly: the bytes encoded are the bytes of the item in order, a fixed-size decoder yields exactly that many bytes of the stream in order, and the remaining-bytes decoder yields everything up to the end of the stream. A string decoder yields the string whose UTF-8 form is the bytes read and rejects with InvalidInput exactly the byte sequences that are not valid UTF-8.',
  ['inputs'], 'all contents and lengths, all byte sequences valid or not, all partitions, repeated use',
  'Tests use short ASCII strings delivered whole.',
  ['src/bytes.rs', 'src/slice.rs'], [('BytesEncoder, BytesDecoder, CopyableBytesDecoder, RemainingBytesDecoder, Utf8Encoder, Utf8Decoder', 'src/bytes.rs')])

p('C05', 'is_idle and requiring_bytes tell the truth',
  'A decoder is idle exactly when a finished item waits, an encoder only when nothing is left to write (it may take one more call of encode to notice that); an idle codec consumes or produces no byte, stays idle, and requires zero bytes (unless it is a Length decoder whose inner item ended early and is going to be rejected). A finite number of required bytes is exactly what an encoder will still write, and is never more than what a decoder still needs to complete its item (a decoder that collects until the end of the stream reports this for the item it is in or would take next).',
  ['inputs', 'histories'], 'every codec in every reachable state, for every continuation of the stream',
  'Tests assert requiring_bytes at one or two states; callers size their reads and buffers by it in every state.',
  ['src/decode.rs', 'src/encode.rs', 'src/byte_count.rs', 'src/combinator.rs', 'src/tuple.rs', 'src/bytes.rs'],
  [('requiring_bytes / exact_requiring_bytes / is_idle', 'src/decode.rs, src/encode.rs and every impl')])

p('C06', 'Life-cycle errors: busy, incomplete and truncated are reported, never dropped',
  'Starting an item on an encoder that still has output pending fails with EncoderFull (an absent optional item is nothing and may be accepted) and finishing a decoder whose item is incomplete fails with IncompleteDecoding; both leave the coding in progress untouched. A stream that ends inside an item makes decoding fail, output that does not fit a stream that has ended makes encoding fail, and no error is reported on streams and items that the format accepts.',
  ['inputs', 'histories', 'fault_sequences'], 'every codec, every state, every truncation point, every announced or unannounced end of stream',
  'Tests truncate a few streams at one point; the truncation point, its delivery and the state it meets are unbounded.',
  ['src/decode.rs', 'src/encode.rs', 'src/bytes.rs', 'src/combinator.rs', 'src/tuple.rs', 'src/error.rs'],
  [('EncoderFull / IncompleteDecoding / UnexpectedEos checks', 'every codec')])

p('C07', 'Length: exactly the given number of bytes, or an error',
  'A decoder limited to n bytes takes exactly n bytes from the stream for an item and yields what the inner decoder makes of exactly those n bytes, where the inner decoder is told that its stream ends there; an inner item that ends early is rejected, and so is a stream that ends before the n bytes (UnexpectedEos). An encoder limited to n bytes writes exactly the n bytes of its item and rejects an item of another size with an error.',
  ['inputs', 'histories'], 'all n, all inner codecs, all streams and partitions, successive items',
  'Tests use n of 3 to 5 with whole buffers.',
  ['src/combinator.rs'], [('Length::decode, Length::encode, remaining_bytes bookkeeping', 'src/combinator.rs')])

p('C08', 'MaxBytes: an item may use at most the given number of bytes',
  'A decoder or encoder limited to at most n bytes handles items of at most n bytes exactly like the inner one, and never consumes or produces more than n bytes for an item: a longer item is rejected with InvalidInput. (A decoder also rejects a stream that is announced to go on for more than n bytes from the item on.) The count starts again with each item.',
  ['inputs', 'histories'], 'all n, all inner codecs, items just below, at and above the limit, all partitions, successive items',
  'Tests sample one limit and one partition.',
  ['src/combinator.rs'], [('MaxBytes consumed-byte bookkeeping', 'src/combinator.rs')])

p('C09', 'Slice: quotas are never exceeded and lose nothing',
  'A sliced codec consumes or produces at most its quota until the quota is replaced, then reports suspension and moves no further byte; resuming with new quotas continues exactly where it stopped, so that the item is the one the inner codec alone would handle. The end of the whole stream is not announced to the inner codec before its quota reaches it.',
  ['inputs', 'schedules', 'histories'], 'all quota sequences including zero, all inner codecs, all partitions',
  'Tests run one interleaving of two encoders.',
  ['src/combinator.rs'], [('Slice consumable_bytes', 'src/combinator.rs')])

p('C10', 'Collecting decoders: every item, in order, none lost or invented',
  'Collecting to the end of the stream yields exactly the items the inner decoder finds, in order, and fails when the stream ends inside an item; collecting a given number of items yields exactly that many and consumes nothing after them (the number counts down and is set again for the next collection). Each collection starts from an empty container.',
  ['inputs', 'histories'], 'all item sequences, counts including zero, all inner codecs of non-empty items, all partitions and ways the end of stream arrives',
  'Tests collect three one-byte items given in one call.',
  ['src/combinator.rs'], [('Collect / CollectN decode loops', 'src/combinator.rs')])

p('C11', 'Tuples: components one after another, in order',
  'A tuple codec handles its components strictly in order, each from the byte after the previous one, and yields or writes the component values in their places; a failing component makes the tuple fail. Required bytes of an encoder tuple are the sum over components, and the tuple is idle exactly when all its components are.',
  ['inputs', 'histories'], 'all arities (2 to 8), component codecs, streams, partitions, successive items',
  'Tests use one 3-tuple of fixed-width numbers.',
  ['src/tuple.rs'], [('tuple macros', 'src/tuple.rs')])

p('C12', 'Repeat: the items of an iterator, each exactly once, in order',
  'A repeating encoder writes the encodings of all items of its iterator, each exactly once and in order, asks the iterator for the next item only when the current one is written, and becomes idle only after the last item; a new iterator is refused while one is in progress.',
  ['inputs', 'histories'], 'all iterators (empty, items of zero bytes, long), inner encoders, buffer partitions',
  'Tests encode one short iterator into one large buffer.',
  ['src/combinator.rs'], [('Repeat::encode', 'src/combinator.rs')])

p('C13', 'Transforming combinators neither lose nor alter anything',
  'Mapping, fallible mapping, error mapping, chaining, optional, omittable, peeking, last-item and pre-encoding combinators pass the same bytes to and from the inner codec as it would use alone, and apply the given function exactly once to each item (or error). A failing function surfaces its own error; an omitted item uses no byte and yields none; a pre-encoded item has the same bytes as the item encoded directly.',
  ['inputs', 'histories'], 'all inner codecs, functions, items, partitions, successive items',
  'Tests apply each combinator once to a one-byte codec.',
  ['src/combinator.rs', 'src/decode.rs', 'src/encode.rs'], [('Map, MapErr, TryMap, AndThen, Optional, Omittable, Peekable, MaybeEos, MapFrom, TryMapFrom, PreEncode, Last', 'src/combinator.rs')])

p('C14', 'Read and write buffers: a FIFO that neither loses, repeats nor reorders bytes',
  'What is decoded or read from a read buffer is exactly what was read from the reader, in order and once; what is written out of a write buffer is exactly what was encoded or written into it, in order and once. The reported length, room and stream state agree with this, and an error or would-block from the underlying stream loses no byte already buffered.',
  ['inputs', 'schedules', 'fault_sequences', 'histories'], 'all capacities, all sequences of partial reads and writes, interrupted, would-block and failing calls, end of stream',
  'Tests use one reader that delivers everything at once.',
  ['src/io.rs'], [('ReadBuf head/tail, WriteBuf head/tail, StreamState', 'src/io.rs')])

p('C15', 'Buffered I/O moves both directions and reports its state faithfully',
  'One round of buffered I/O fills the read buffer from the stream and flushes the write buffer to it; end of stream is reported exactly when reading has reached it or writing was not taken any more, would-block exactly when neither direction can go on (reading was refused, and writing was refused or had nothing left), and errors of either direction are passed on. Neither direction loses, repeats or reorders a byte.',
  ['inputs', 'schedules', 'fault_sequences'], 'all interleavings of partial, blocking, ended and failing reads and writes on both sides',
  'No test drives the two directions into different states.',
  ['src/io.rs'], [('BufferedIo::execute_io, is_eos, would_block', 'src/io.rs'), ('ReadBuf::fill, WriteBuf::flush', 'src/io.rs')])

p('C16', 'Whole-item helpers read no byte too many and write every byte',
  'Decoding exactly one item from a reader takes exactly the bytes of that item from the reader and leaves the rest unread; encoding to a writer writes every byte of the item and reports an error if the writer fails or takes no more. Converting an item to bytes in one go gives the same bytes as encoding it piece by piece; decoding from a byte slice in one go fails if bytes are missing, and an item without an end is refused as invalid input when it is to be converted to bytes. None of them goes round for ever on a stream that ends.',
  ['inputs', 'schedules', 'fault_sequences'], 'all items, codecs with exact, partial and unknown byte counts, all short reads and writes and interruptions',
  'Tests use one fixed-width item over an in-memory cursor.',
  ['src/io.rs', 'src/decode.rs', 'src/encode.rs', 'src/combinator.rs'],
  [('decode_exact', 'src/io.rs'), ('encode_all', 'src/io.rs'), ('decode_from_bytes, encode_into_bytes', 'src/decode.rs, src/encode.rs')])

p('C17', 'Byte counts and end-of-stream marks follow their documented algebra',
  'Adding byte counts for decoding and for encoding follows the documented tables for every combination and never wraps around; comparison treats Unknown as incomparable and Infinite as the largest. An end-of-stream mark is reached exactly when zero bytes remain, and moving it back adds to a known distance only.',
  ['inputs'], 'all pairs of byte counts over the whole 64-bit range',
  'Tests cover a handful of small values; wrap-around and the mixed cases are outside.',
  ['src/byte_count.rs', 'src/eos.rs'], [('ByteCount::add_for_decoding / add_for_encoding / partial_cmp, Eos', 'src/byte_count.rs, src/eos.rs')])

p('C18', 'Monolithic codecs: buffered items are handed over whole and unchanged',
  'A monolithic decoder hands the wrapped reader-style decoder exactly the bytes of the stream up to its end, and an item is available only after that end, while everything before it is taken as it comes and kept in order; a monolithic encoder emits exactly the bytes the wrapped writer-style encoder produced for the item, once and in order, however small the buffers. Errors of the wrapped codec surface, and after an item has been handed over the codec starts the next one afresh.',
  ['inputs', 'schedules', 'histories', 'fault_sequences'], 'all contents and sizes, all partitions, successive items, failing wrapped codecs',
  'Tests encode one value into one buffer of 1024 bytes.',
  ['src/monolithic.rs', 'src/bincode_codec.rs', 'src/json_codec.rs'], [('MonolithicDecoder, MonolithicEncoder, WriterChain', 'src/monolithic.rs')])

p('C19', 'Asynchronous buffers keep the guarantees of the synchronous ones',
  'Filling a read buffer from an asynchronous reader appends exactly the bytes the reader delivered, in order and once, and reports end of stream exactly when the reader ends while room was left; flushing a write buffer to an asynchronous writer writes exactly the front of the buffer, in order and once, and keeps the rest. A pending stream loses nothing: it is reported as would-block and pending, and the task has been registered with that stream to be woken. One asynchronous round of buffered I/O does both, is pending exactly if both directions are, and passes on an error of either. Encoding into a full write buffer on behalf of a task remembers the task and wakes it when the buffer has been written out, and otherwise writes as the synchronous call does.',
  ['inputs', 'schedules', 'fault_sequences'], 'all delivery schedules of reader and writer (pending, partial, end, error) and buffer sizes',
  'Tests poll one stream that is always ready.',
  ['src/io_async.rs', 'src/io.rs'], [('ReadBuf::poll_fill, WriteBuf::poll_flush, BufferedIo::execute_io_poll', 'src/io_async.rs'), ('IoEncodeExt::encode_to_write_buf_async, WriteBuf::waker', 'src/io.rs')])

p('C20', 'Padding: all remaining bytes, each equal to the expected one',
  'The padding decoder consumes everything up to the end of the stream and fails with InvalidInput exactly when an expected byte is set and some padding byte differs from it; the padding encoder fills all remaining room with its byte until the end of the stream and never finishes earlier.',
  ['inputs', 'histories'], 'all streams, expected bytes, positions of a deviating byte, partitions, successive items',
  'Tests place one deviating byte in one buffer.',
  ['src/padding.rs'], [('PaddingDecoder::decode, PaddingEncoder::encode', 'src/padding.rs')])

p('C21', 'Errors keep their kind',
  'An error that originates in the underlying stream is reported as UnexpectedEos when the stream ended unexpectedly and as Other for any other I/O failure, and errors converted from foreign failures are reported as Other. The kind of an error survives every combinator that does not explicitly map it.',
  ['inputs', 'fault_sequences'], 'all I/O error kinds, all codecs and combinators they pass through',
  'Tests look at a few kinds from a few codecs.',
  ['src/error.rs', 'src/io.rs'], [('From<io::Error> for Error, From<Failure> for Error', 'src/error.rs')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
