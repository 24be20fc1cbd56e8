prop('Q01', 'Frame queues are bounded FIFO rings that never overwrite unread frames',
     'A frame queue hands frames to its consumer in exactly the order they were added, never offers the producer a slot holding an unread frame, and reports its fill level exactly. '
     'An operation on a full or empty queue changes nothing, except that a forced write to a full queue discards exactly the newest queued frame, once per discarded frame, and counts it as lost. '
     'This holds from every fill level and every wrap-around position.',
     ['inputs', 'histories'], 'every capacity, every reachable pair of read and write positions, every operation sequence',
     'unit tests walk a handful of positions of one small queue; wrap-around, exactly-full and just-flushed positions are reached by a few histories only',
     ['src/AVFramedQueue.cpp', 'src/FrameQueue.hh', 'src/SlicedVideoFrameQueue.cpp'],
     [('ring indices', 'AVFramedQueue::{getRear,getFront,addFrame,removeFrame,doFlush,forceGetRear,forceGetFront,getElements}'), ('drop accounting', 'FrameQueue::flush')],
     'path-sensitive dataflow over the CFG with linear-inequality domain, per-operation transition relation',
     state=[{'name': 'rear/front/max', 'meaning': 'write position, read position, capacity'}])

prop('R01', 'A shared frame is released once, after every consumer is done with it',
     'When several filters consume the same stream through one reader, each of them is told exactly once that a frame is new, and the frame leaves the queue exactly once, only after every attached consumer has released it. '
     'A consumer releasing a frame never releases it on behalf of another, and a consumer that disconnects never leaves the remaining ones stuck on a frame nobody will release.',
     ['histories', 'schedules'], 'every number of sharing filters and every interleaving of their deliveries, releases, joins and departures',
     'tests share a reader between two filters in one fixed order; the guarantee is over all orders of get, release, join and leave',
     ['src/IOInterface.cpp', 'src/IOInterface.hh'],
     [('delivery and release flags', 'Reader::{getFrame,removeFrame,allRead,disconnect,addReader}')],
     'typestate dataflow with quantified map scan certificates over inlined CFGs',
     state=[{'name': 'filters', 'meaning': 'per consumer: frame still to be announced / still held'}])

prop('C01', 'State shared between threads is only touched under the lock that guards it',
     'Filters, readers, writers and the worker pool are used at once by worker threads, by the control thread and by neighbouring filters. Every access to connection tables, event queues, reader state, '
     'frame counters, audio buffer positions and task tables happens while the mutex that protects that piece of state is held, on every call chain from every entry point, and condition waits never let go of it unnoticed.',
     ['schedules'], 'every interleaving of worker threads, control operations and neighbouring filters, through every call chain of the public interface',
     'a data race shows in one interleaving out of millions; a passing test says nothing about the schedules it did not meet',
     ['src/IOInterface.cpp', 'src/Filter.cpp', 'src/WorkersPool.cpp', 'src/TaskQueue.cpp', 'src/AudioCircularBuffer.cpp', 'src/Event.cpp', 'src/modules'],
     [('guarded fields', 'BaseFilter::{readers,writers,eventQueue,seqNums}, Reader::*, AudioCircularBuffer::{rear,front,elements}, WorkersPool::{runnables,queue,run}')],
     'interprocedural lockset analysis: held-lock tokens tracked symbolically along every path of every entry point, each guarded access checked against the object that owns it')

prop('C02', 'No thread can deadlock on the framework\'s own locks',
     'Locks of filters, readers, queues and the pool are always acquired in one global order (a filter before the filters it feeds, a filter before its reader, a reader before its queue, the pool alone), no thread acquires a lock it already holds, '
     'and every lock taken on a path is released on that path. Connecting, disconnecting, sharing, configuring and running can therefore never block each other for good.',
     ['schedules', 'configurations'], 'every pair of operations running at once on any filter graph without cycles',
     'a deadlock needs two operations to cross at one instruction; tests run them one after the other',
     ['src/IOInterface.cpp', 'src/Filter.cpp', 'src/WorkersPool.cpp', 'src/AudioCircularBuffer.cpp', 'src/modules'],
     [('lock order', 'BaseFilter::mtx < downstream BaseFilter::mtx < Reader::lck < AudioCircularBuffer::mtx; WorkersPool::mtx leaf')],
     'interprocedural lock-order analysis over symbolic lock tokens with a declared rank; every nested acquisition is an obligation')

prop('W01', 'Every registered task runs on one worker at a time and is never lost',
     'Each task registered with the worker pool is executed by at most one worker at any moment, only when it is due, and every task that a finished execution enabled (and a task with work still pending) is queued again. '
     'A task that was removed is never executed after the removal returned, and stopping the pool waits for every worker. No task disappears from the pool other than by being removed.',
     ['schedules', 'histories'], 'every number of workers and tasks, every order in which workers finish, tasks enable each other, and control operations add, remove or stop',
     'tests run two workers over a few tasks for a moment; losing a wake-up, running a task twice or touching a removed one needs one specific interleaving',
     ['src/WorkersPool.cpp', 'src/TaskQueue.cpp', 'src/Runnable.cpp', 'src/Runnable.hh'],
     [('scheduling', 'WorkersPool::{addTask,removeTask,stop} and its worker body'), ('task queue', 'TaskQueue::{addJob,addTask,removeTask,pop...}')],
     'typestate dataflow over the worker body and the pool operations, with scan certificates for the wake-up loop and paired-update analysis of the queue containers')

prop('F01', 'A processing round publishes what was filled and releases what it consumed',
     'In every processing round of every filter, exactly the output frames that processing filled are made visible to their consumers, each once, and exactly the input frames that were delivered as new are released, each once and after processing. '
     'Processing runs at most once per round, a regular filter only runs it with a new input and a free output, and every consumer whose frame was published is scheduled.',
     ['inputs', 'histories', 'configurations'], 'every filter role, every set of connected, disconnected, empty or late inputs and outputs, every processing outcome',
     'tests drive one or two connections through a successful round; partial failures, idle outputs and mixed inputs are combinations they do not reach',
     ['src/Filter.cpp', 'src/Filter.hh', 'src/IOInterface.cpp'],
     [('round', 'BaseFilter::{processFrame,demandOriginFrames*,demandDestinationFrames,addFrames,removeFrames}')],
     'typestate dataflow of one round (helpers inlined) with per-connection protocol tags and scan certificates for every loop over connections')

prop('F02', 'A frame is handed on only when filled by a successful step, with its stamps',
     'A frame handed to the next filter was completely filled by a processing step that reported success, and carries its presentation and decode time, the moment its content originated, and its sequence number. '
     'Stamps relayed from a source frame keep their meaning, the numbers a source or mixing filter gives advance by one per frame of that output, and a step that reports failure hands nothing on.',
     ['inputs', 'histories'], 'every processing implementation, every path through it, success or failure',
     'tests compare stamps of frames that went through one or two filters; a stale stamp shows only when a reused slot meets a rarely taken path',
     ['src/Filter.cpp', 'src/AudioCircularBuffer.cpp', 'src/modules'],
     [('stamps', 'the processing implementation of every filter class'), ('numbering', 'runDoProcessFrame of every filter family')],
     'obligation dataflow per output frame over every processing implementation, helpers inlined')

prop('F03', 'Connecting, sharing and disconnecting filters is all or nothing',
     'A connection (or a shared input) that is reported as made exists on both ends, is live, and is known by both ends under the right ids; one that is refused leaves no trace on either filter and loses no memory. '
     'No filter ever has more connections than it supports or replaces a live one, and removing a connection tells its other users, and drops its counters and every piece of configuration the filter kept for it.',
     ['histories', 'configurations', 'fault_sequences'], 'every order of connect, share, disconnect and teardown, every answer of the configuration hooks and of the queue allocation',
     'tests connect filters that accept; what is left behind after a refusal or a removal shows only in a later operation on the same id',
     ['src/Filter.cpp', 'src/IOInterface.cpp', 'src/modules'],
     [('tables', 'BaseFilter::{connect*,shareReader,setReader,setWriter,deleteReader,deleteWriter,disconnect*,~BaseFilter}'), ('per-connection configuration', 'specific{Reader,Writer}{Config,Delete} of every module')],
     'paired-update and typestate dataflow over the connection operations with shadow tables, forking on every hook answer')

prop('Q02', 'A published frame wakes every consumer; a sliced picture is queued whole',
     'Publishing a frame reports every consumer connected to the queue, each once, so that each of them is told to run. '
     'A coded picture made of slices is queued as exactly its slices: all of them, in order, each in a slot of its own that holds exactly its bytes and its length, never more than the slot can hold, and the stamps of the picture. '
     'Slices of one picture are never mixed with those of another, and an encoder that could not hand over a whole picture reports failure.',
     ['inputs', 'histories', 'configurations'], 'every number of consumers and of slices, every slice size, every state of the queue, every outcome of encoding',
     'tests queue a few small slices for one or two consumers; oversized slices, pictures cut short and leftovers of an earlier picture do not occur in them',
     ['src/SlicedVideoFrameQueue.cpp', 'src/AVFramedQueue.cpp', 'src/AudioCircularBuffer.cpp', 'src/VideoFrame.cpp', 'src/modules/videoEncoder'],
     [('wake list', 'addFrame of every queue'), ('slices', 'SlicedVideoFrameQueue::{addFrame,pushBackSliceGroup}'), ('units', 'VideoEncoderX264::encodeFrame, VideoEncoderX265::encodeFrame')],
     'scan certificates over the consumer list and path analysis of the slicing loop (slot, bytes, length, stamps, write index), forking on every refusal')

prop('A01', 'The audio ring hands on every accepted sample once, in order, at its time',
     'Between a producer and a consumer of audio, every sample of a frame the ring accepted is handed on exactly once, in order and on its own channel, also across the end of the ring, and a frame that does not fit is refused whole. '
     'Each extracted frame carries the time of its first sample: gaps in time are filled with exactly as much silence, frames from the past are dropped, a discontinuity empties the ring and starts afresh, and frames close to their expected time are simply appended.',
     ['inputs', 'histories'], 'every format, rate and channel count, every frame size and fill level, every sequence of frame times',
     'tests push and pop a few frames from position zero; the end of the ring, gaps longer than a frame, restarts after a discontinuity and hours of audio are histories they do not reach',
     ['src/AudioCircularBuffer.cpp', 'src/AudioCircularBuffer.hh', 'src/AudioFrame.cpp'],
     [('transfer', 'AudioCircularBuffer::{pushBack,popFront,fillOutputBuffers}'), ('time', 'AudioCircularBuffer::{addFrame,getFront,doFlush}')],
     'path analysis with linear-inequality domain, scan certificates per channel and rational normal forms for the time formulas',
     state=[{'name': 'rear/front/elements', 'meaning': 'bytes ever written, bytes ever read, bytes stored (per channel)'}, {'name': 'syncTimestamp', 'meaning': 'time of byte 0'}])

prop('E01', 'A control event is carried out or refused whole, once, when due',
     'Every queued control event is dispatched exactly once, when its delay has elapsed, in the order in which the events were issued, to the handler of its own action with its own parameters. '
     'An event that is refused (no parameters, a missing one, one of the wrong type, a value out of range, an unknown action) leaves the filter exactly as it was; one that is accepted has an effect. '
     'Nothing a control message may contain brings the server down.',
     ['inputs', 'histories'], 'every action of every filter and of the controller, every JSON value as parameters, every order and delay of events',
     'tests send a few well formed events; the wrong types, missing keys and half valid requests a client may send are unboundedly many',
     ['src/Filter.cpp', 'src/Event.cpp', 'src/Controller.cpp', 'src/modules'],
     [('queue', 'BaseFilter::{pushEvent,processEvent}, Event'), ('handlers', 'initializeEventMap of every filter and of the controller'), ('containment', 'Controller::processRequest')],
     'path analysis of every handler with effect tracking, exception-effect analysis over the call graph, dispatch typestate',
     note='Three event handlers of modules that are not built here half-apply a refused request; they are recorded as known findings.')

prop('D01', 'Every DASH file is well-formed and describes exactly the samples it holds',
     'Every initialisation and media segment handed to clients is a well-formed ISO base media file whatever the medium, the configuration and the number and kind of samples: '
     'each box says exactly how long it is and holds what its type requires, numbers are in network order, both kinds of segments name the same track, and the fields describe the stream and the samples: '
     'codec, size, rates and descriptors in the initialisation segment; time, duration, sequence number, and for each sample its duration, size, key flag, composition offset and place in the media segment.',
     ['inputs', 'configurations'], 'every medium, every configuration, every number of samples and every sample',
     'tests compare a handful of segments with stored files; other sample counts, sizes, times and HEVC segments are never compared',
     ['src/modules/dasher/i2libisoff.c', 'src/modules/dasher/i2libdash.c', 'src/modules/dasher/i2context.h'],
     [('init segments', 'initVideoGenerator, initAudioGenerator'), ('media segments', 'segmentGenerator'), ('contexts', 'generate_context')],
     'symbolic layout of the output (interprocedural, affine loop invariants) parsed against ISO/IEC 14496-12',
     note='One wrong field (the audio sample rate of mp4a) is pinned by the repository\'s own test and recorded as a known finding.')

prop('D03', 'DASH publishes every coded frame once, whole, before announcing it',
     'Every coded frame given to the dasher for a known stream is appended exactly once, unchanged and in order, to the segment under construction of its own stream; segments end at key frames (video) once their duration is reached, '
     'carry the time, duration, length and number of exactly the samples in them, and are never overwritten before they are written; initialisation data is published once it is generated and kept until then. '
     'The segments of a set are written only when all of its representations are complete, each file completely; only what was written completely is announced, with its own time and duration; '
     'each announcement is published in the manifest before anything else is written or deleted; exactly the files of the segments dropped from the manifest are deleted, and complete segments are kept until they are written.',
     ['inputs', 'histories', 'fault_sequences'], 'every sequence of frames of any number of streams, every size and time, every failing generation, write or deletion',
     'tests feed short single-stream sequences to the segmenters; several representations, refused samples, failing writes and windows of dropped segments are never combined',
     ['src/modules/dasher'],
     [('dispatch', 'Dasher::{doProcessFrame,generateSegment,appendFrameToSegment,generateInitSegment,writeVideoSegments,writeAudioSegments,writeSegmentsToDisk,cleanSegments,forceAudioSegmentsGeneration}'),
      ('segmenters', 'DashSegmenter::generateSegment, DashVideoSegmenter, DashAudioSegmenter'), ('library', 'i2libdash.c'), ('files', 'DashSegment::writeToDisk')],
     'symbolic transition relations of the segment library and the segmenters per path; round-by-round protocol analysis of the dispatcher with inductive loop facts')

prop('D04', 'The manifest lists exactly the announced segments, by the names of their files',
     'At any time the manifest written describes every adaptation set and every representation there is, with the values last given for it (templates and timescale; codec, size or rate and channels, bandwidth), and lists for each adaptation set, '
     'in order and each once, the segments announced last, at most as many as configured and at least one, each with its own time and duration; exactly the times of the segments that leave the window are reported, once, to be deleted. '
     'The templates, completed with the identifier of the representation and the time of a segment, name exactly the files the dasher writes and deletes, in the folder of the manifest; audio and video do not share an adaptation set, '
     'and names change together or not at all.',
     ['inputs', 'histories', 'configurations'], 'every sequence of announcements, reconfigurations and descriptions, every folder, base name and window',
     'tests compare one manifest with a stored file and never reconfigure, never shrink a window and never look the names up in the folder',
     ['src/modules/dasher/MpdManager.cpp', 'src/modules/dasher/MpdManager.hh', 'src/modules/dasher/Dasher.cpp'],
     [('manifest', 'MpdManager::writeToDisk, AdaptationSet::toMpd'), ('window', 'AdaptationSet::updateTimestamp, MpdManager::updateAdaptationSetTimestamp'), ('descriptions', 'MpdManager::update*'),
      ('names', 'Dasher::configure, writeSegmentsToDisk, cleanSegments, generateInitSegment')],
     'symbolic evaluation of the manifest into a tree judged per loop round; string-valued path analysis of names against templates; window bounds by linear entailment')

prop('D02', 'Access units hold exactly their slices; decoder configuration is the stream\'s',
     'Every access unit handed to the segments consists of exactly the slices that arrived for it, in order, each whole and preceded by its length, with their size and times; it is handed over once, when a delimiter or a later unit shows that it is complete, '
     'and is a key picture exactly if its own slices are. Nothing is ever written behind the frame. The decoder configuration is made from the last parameter sets (video) or the header of the frame (audio) of the stream itself, as soon as they are there, and says what they say.',
     ['inputs', 'histories'], 'every sequence of NAL units of any type and length, every ADTS header',
     'tests feed one H.264 file and one ADTS stream; HEVC, delimiters, repeated or late parameter sets, SEI and oversized units are never fed',
     ['src/modules/dasher/DashVideoSegmenter.cpp', 'src/modules/dasher/DashVideoSegmenterAVC.cpp', 'src/modules/dasher/DashVideoSegmenterHEVC.cpp', 'src/modules/dasher/DashAudioSegmenter.cpp'],
     [('units', 'DashVideoSegmenter{AVC,HEVC}::parseNal, appendNalToFrame, detectStartCode'), ('records', '*::updateExtradata, createExtradata'), ('frames', '*::manageFrame')],
     'case-split path analysis over header bytes; symbolic byte sequences compared with the standards',
     note='Two wrong bytes of the decoder configuration records are pinned by the repository\'s own tests and recorded as known findings.')

prop('V01', 'Channels, crops and conversions write the pixels their settings say, in bounds',
     'VideoMixer, VideoSplitter and VideoResampler accept only settings in their documented range and keep them as given. Each configured, enabled channel with a frame is drawn exactly once, on its layer from back to front, at its position, in its size, '
     'with its opacity, cut only where the layout ends, on an empty layout of the size configured; each configured crop that lies inside the frame is cut as its region into its own frame, others leave theirs empty; a conversion has the size and format configured '
     'and uses a converter made for exactly these images. Nothing is read or written outside of an image or its frame. Outputs are described as they are (size, format, length, consumed) and have the times of their input, a mixed frame the latest time of the frames it shows.',
     ['inputs', 'configurations', 'histories'], 'every setting, frame size and pixel format, every number of channels, layers and crops, every reconfiguration between frames',
     'tests mix four fixed quadrants of the same time, cut four fixed crops and feed one format: nothing exceeds an edge, changes its format or is reconfigured while running',
     ['src/modules/videoMixer', 'src/modules/videoSplitter', 'src/modules/videoResampler'],
     [('mixer', 'VideoMixer::doProcessFrame, pasteToLayout, configChannel0, configure0, createNew'), ('splitter', 'VideoSplitter::doProcessFrame, configCrop0, CropConfig'), ('resampler', 'VideoResampler::doProcessFrame, reconfigure, setAVFrame, configure0, getLibavPixFmt')],
     'symbolic execution with a model of images and rectangles, per round of the drawing loops; inductive invariant for the converter',
     note='The length of the frames of the splitter is in pixels, not bytes: pinned by an existing test, recorded as a known finding.')

prop('S01', 'Shared-memory readers find whole, well-described frames, never written under',
     'SharedMemory writes into the segment only while the reader says that it may, stays inside it, and lets the reader read as its last step, with a complete header that describes exactly the frame behind it: number, pixel format, codec, size, '
     'time in seconds and microseconds, and length. A raw frame is published whole; of a coded stream whole pictures are published: all units of one picture between delimiters, each with a start code, in order, nothing of another picture, also when pictures are dropped '
     'because the reader is busy. Every frame is handed on as an exact copy, within the memory of the output frame.',
     ['inputs', 'histories', 'schedules'], 'every frame, unit, length and time, every sequence of units, and every schedule of a reader that answers by the flag',
     'tests publish a few frames from zero time with a reader in the same process and never drop one in the middle of a picture',
     ['src/modules/sharedMemory'],
     [('round', 'SharedMemory::doProcessFrame'), ('writing', 'writeSharedMemoryRAW, writeSharedMemoryH264, writeFramePayload'), ('pictures', 'parseNal, appendNalToFrame, detectStartCode'), ('codes', 'getCodecFromVCodec, getPixelFormatFromPixType')],
     'symbolic execution of every path of a round with an event per write into the segment; protocol, layout and content judged per path; case split over unit headers',
     note='Number and time of coded pictures are those of the unit that follows: recorded as known findings.')

prop('A02', 'The audio mix has every accepted sample once, at its time, with its gain',
     'AudioMixer adds each sample of a frame that fits into its window exactly once to the mix, in its channel, at the position of its time, multiplied by the gain of its own channel and the master gain and compressed as the threshold says, and refuses only '
     'frames of the past, of other kinds, or without room; a frame from beyond the window starts an empty mix at its time. Positions are delivered once each, in order, not before the threshold is reached, with the time of their first sample, described as they are, and are silent again afterwards. '
     'Gains stay in [0, 1], belong to existing channels and change exactly as the commands say; a refused command changes none. Samples keep their value in conversions. Nothing is read or written outside of the mix and the frames.',
     ['inputs', 'histories', 'configurations'], 'every sequence of frames of any channel, time, length and format, every gain and command',
     'tests mix two synchronous channels for a few frames: no frame is late, ahead, beyond the window or of another format, the ring never wraps within a frame, gains are not changed',
     ['src/modules/audioMixer'],
     [('round', 'AudioMixer::doProcessFrame, pushToBuffer, mixSample, extractMixedFrame'), ('samples', 'bytesToFloat, floatToBytes'), ('gains', 'setChannelGain, *Event, specificReaderConfig, specificReaderDelete'), ('sizes', 'AudioMixer::AudioMixer')],
     'symbolic execution of a round with an inductive window invariant; loop effects in terms of iteration counts; formulas by rational equality; tables of sample values')

prop('X01', 'Encoders code every picture once, as now configured, with its own times',
     'VideoEncoderX264 and VideoEncoderX265 hand every picture to the codec exactly once, after looking at the settings, with the planes and size of that picture and under a number of its own. A coded picture holds all its units in order and nothing of another picture, has the size, presentation time, origin time and '
     'sequence number of the picture that it codes and the time of a picture as its decode time. A key picture that was asked for, or is due by the configured interval, is demanded of the codec, and stays demanded until a picture was coded. The settings in force are those the codec is told, new ones and other picture '
     'sizes or formats get to it before the next picture. Settings are taken or refused as a whole, an event changes only the settings it names, and a call carries all its parameters in one event.',
     ['inputs', 'histories', 'configurations'], 'every sequence of pictures, settings, events and answers of the codec, including failures and reordered pictures',
     'tests code a handful of equal pictures with one setting: nothing fails, is reordered, changes size or is reconfigured partially',
     ['src/modules/videoEncoder'],
     [('round', 'VideoEncoderX264or5::doProcessFrame, fill_x264or5_picture, fillPicturePlanes'), ('coding', 'VideoEncoderX264::encodeFrame, VideoEncoderX265::encodeFrame'), ('settings', 'reconfigure of both encoders'), ('events', 'VideoEncoderX264or5::configure0, configEvent, configure')],
     'symbolic execution of every path with the codec libraries as opaque ordered events; values given to the codec compared with settings and picture; one unit of a coded picture stands for all',
     note='B frames make negative decode numbers and the bframes setting does not get to x264; formats other than YUV420P do not get to the codecs: known findings.')

prop('F04', 'A paced filter keeps to its intervals; synchronised inputs advance together',
     'A filter with a fixed frame interval works on a new frame when its time lies in the current interval and then moves its clock by exactly one interval. While all new frames are later, it goes on with the earliest of them and its clock moves there; '
     'with outdated frames and none due it waits and its clock stays, as it does without new frames. A filter without interval works on every new frame. '
     'A filter that synchronises its inputs takes only from those that lag behind the latest by more than the margin or whose queue is full while any input is empty or lags, and from all of them otherwise.',
     ['inputs', 'histories', 'configurations'], 'every time of the frames of each input relative to the clock and to one another, every fill state of the queues, with up to two inputs',
     'tests feed one or two aligned inputs with regular times; inputs that run ahead, lag, or pause do not occur in them',
     ['src/Filter.cpp'],
     [('pacing', 'BaseFilter::demandOriginFrames, demandOriginFramesFrameTime, demandOriginFramesBestEffort'), ('synchronisation', 'BaseFilter::framesSync')],
     'path-sensitive symbolic dataflow with linear facts over the decision functions, all answers of up to two inputs; answer and clock compared by entailment with those the frame times call for',
     note='More than two inputs are not enumerated.')

prop('O01', 'The queue between two filters is freed once, by the end that leaves last',
     'A connection shares one queue between a writer and a reader. The end that leaves first marks the queue as left and leaves it to the other; the end that finds it marked frees it, once. Either end forgets the queue by leaving and does not touch it again. '
     'A reader gives its queue back when its last consumer leaves, and not before, and then holds no frame of it. An end that is destroyed leaves its queue in the same way. Nothing else frees the queue of a connection.',
     ['histories'], 'every order in which consumers, readers and writers leave or are destroyed, and every mark of the queue they find',
     'tests tear connections down in one or two orders and do not look at who frees the queue; a leak or a second free does not fail them',
     ['src/IOInterface.cpp', 'src/Filter.cpp'],
     [('writer', 'Writer::disconnect, Writer::~Writer'), ('reader', 'Reader::disconnect, disconnectQueue, Reader::~Reader'), ('mark', 'FrameQueue::isConnected, setConnected')],
     'ownership typestate dataflow over every leaving operation, helpers inlined, with the mark of the queue unknown; enumeration of the places that free queues',
     note='The two ends leaving at the very same moment is not covered: the mark is read and written without a common lock.')
