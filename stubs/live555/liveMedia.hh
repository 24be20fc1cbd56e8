// Declarations of the live555 API used by the repository; analysis only (nothing is ever built or run with it).
#ifndef STUB_LIVEMEDIA_HH
#define STUB_LIVEMEDIA_HH
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <unistd.h>
#include <sys/time.h>
#include <netinet/in.h>
#include <arpa/inet.h>
typedef bool Boolean;
#ifndef True
const Boolean False = false;
const Boolean True = true;
#endif
typedef uint8_t u_int8_t; typedef uint16_t u_int16_t; typedef uint32_t u_int32_t; typedef uint64_t u_int64_t;
typedef void TaskFunc(void* clientData);
typedef void* TaskToken;
typedef uint32_t EventTriggerId;
typedef u_int16_t portNumBits;
typedef u_int32_t netAddressBits;
char* strDup(char const* str);
char* strDupSize(char const* str);
class TaskScheduler {
public:
  virtual ~TaskScheduler();
  virtual TaskToken scheduleDelayedTask(int64_t microseconds, TaskFunc* proc, void* clientData) = 0;
  virtual void unscheduleDelayedTask(TaskToken& prevTask) = 0;
  virtual void rescheduleDelayedTask(TaskToken& task, int64_t microseconds, TaskFunc* proc, void* clientData);
  virtual EventTriggerId createEventTrigger(TaskFunc* eventHandlerProc) = 0;
  virtual void deleteEventTrigger(EventTriggerId eventTriggerId) = 0;
  virtual void triggerEvent(EventTriggerId eventTriggerId, void* clientData = NULL) = 0;
  virtual void doEventLoop(char volatile* watchVariable = NULL) = 0;
};
class BasicTaskScheduler0 : public TaskScheduler { public: virtual void SingleStep(unsigned maxDelayTime = 0) = 0; };
class BasicTaskScheduler : public BasicTaskScheduler0 { public: static BasicTaskScheduler* createNew(unsigned g = 10000);
  void SingleStep(unsigned maxDelayTime = 0); TaskToken scheduleDelayedTask(int64_t, TaskFunc*, void*); void unscheduleDelayedTask(TaskToken&); EventTriggerId createEventTrigger(TaskFunc*); void deleteEventTrigger(EventTriggerId); void triggerEvent(EventTriggerId, void*); void doEventLoop(char volatile*); };
class UsageEnvironment {
public:
  Boolean reclaim();
  TaskScheduler& taskScheduler() const;
  typedef char const* MsgString;
  virtual MsgString getResultMsg() const;
  virtual void setResultMsg(MsgString msg);
  virtual void setResultMsg(MsgString msg1, MsgString msg2);
  virtual void setResultMsg(MsgString msg1, MsgString msg2, MsgString msg3);
  virtual void setResultErrMsg(MsgString msg, int err = 0);
  virtual UsageEnvironment& operator<<(char const* str);
  virtual UsageEnvironment& operator<<(int i);
  virtual UsageEnvironment& operator<<(unsigned u);
  virtual UsageEnvironment& operator<<(double d);
  virtual UsageEnvironment& operator<<(void* p);
  void* liveMediaPriv; void* groupsockPriv;
  virtual ~UsageEnvironment();
};
class BasicUsageEnvironment : public UsageEnvironment { public: static BasicUsageEnvironment* createNew(TaskScheduler& s); };
class Port { public: Port(portNumBits num); portNumBits num() const; };
class Groupsock {
public:
  Groupsock(UsageEnvironment& env, struct in_addr const& groupAddr, Port port, u_int8_t ttl);
  virtual ~Groupsock();
  int socketNum() const; Port const& port() const; UsageEnvironment& env() const; u_int8_t ttl() const;
  struct in_addr const& groupAddress() const;
  void changeDestinationParameters(struct in_addr const& newDestAddr, Port newDestPort, int newDestTTL, unsigned sessionId = 0);
  void addDestination(struct in_addr const& addr, Port const& port, unsigned sessionId = 0); void removeAllDestinations();
  void multicastSendOnly();
};
unsigned increaseReceiveBufferTo(UsageEnvironment& env, int socket, unsigned requestedSize);
unsigned increaseSendBufferTo(UsageEnvironment& env, int socket, unsigned requestedSize);
netAddressBits our_inet_addr(char const* cp);
netAddressBits chooseRandomIPv4SSMAddress(UsageEnvironment& env);
u_int32_t our_random32();
void gettimeofday_(struct timeval*);
class Medium {
public:
  static Boolean lookupByName(UsageEnvironment& env, char const* mediumName, Medium*& resultMedium);
  static void close(UsageEnvironment& env, char const* mediumName);
  static void close(Medium* medium);
  UsageEnvironment& envir() const { return *fEnv; }
  char const* name() const;
  virtual Boolean isSource() const; virtual Boolean isSink() const;
protected:
  friend class MediaLookupTable;
  Medium(UsageEnvironment& env);
  virtual ~Medium();
  TaskToken& nextTask() { return fNext; }
private:
  UsageEnvironment* fEnv; TaskToken fNext;
};
class MediaSource : public Medium {
public:
  virtual void getAttributes() const;
  virtual char const* MIMEtype() const;
  virtual Boolean isFramedSource() const; virtual Boolean isRTPSource() const;
protected:
  MediaSource(UsageEnvironment& env); virtual ~MediaSource();
};
class FramedSource : public MediaSource {
public:
  typedef void (afterGettingFunc)(void* clientData, unsigned frameSize, unsigned numTruncatedBytes, struct timeval presentationTime, unsigned durationInMicroseconds);
  typedef void (onCloseFunc)(void* clientData);
  void getNextFrame(unsigned char* to, unsigned maxSize, afterGettingFunc* f, void* c1, onCloseFunc* g, void* c2);
  static void handleClosure(void* clientData);
  void handleClosure();
  void stopGettingFrames();
  virtual unsigned maxFrameSize() const;
  virtual void doGetNextFrame() = 0;
  Boolean isCurrentlyAwaitingData() const;
  static void afterGetting(FramedSource* source);
protected:
  FramedSource(UsageEnvironment& env); virtual ~FramedSource();
  virtual void doStopGettingFrames();
protected:
  unsigned char* fTo; unsigned fMaxSize; unsigned fFrameSize; unsigned fNumTruncatedBytes; struct timeval fPresentationTime; unsigned fDurationInMicroseconds;
};
class FramedFilter : public FramedSource {
public:
  FramedSource* inputSource() const { return fInputSource; }
  void reassignInputSource(FramedSource* newInputSource);
  void detachInputSource();
protected:
  FramedFilter(UsageEnvironment& env, FramedSource* inputSource); virtual ~FramedFilter();
  virtual char const* MIMEtype() const; virtual void getAttributes() const; virtual void doStopGettingFrames();
  FramedSource* fInputSource;
};
class StreamReplicator : public Medium { public: static StreamReplicator* createNew(UsageEnvironment& env, FramedSource* inputSource, Boolean deleteWhenLastReplicaDies = True); FramedSource* createStreamReplica(); unsigned numReplicas() const; FramedSource* inputSource() const; void detachInputSource(); protected: StreamReplicator(UsageEnvironment&, FramedSource*, Boolean); virtual ~StreamReplicator(); };
class RTPReceptionStats { public: double totNumKBytesReceived() const; unsigned totNumPacketsReceived() const; unsigned totNumPacketsExpected() const; struct timeval const& totalInterPacketGaps() const; unsigned minInterPacketGapUS() const; unsigned maxInterPacketGapUS() const; unsigned jitter() const; unsigned numPacketsReceivedSinceLastReset() const; unsigned numPacketsExpectedSinceLastReset() const; };
class RTPReceptionStatsDB { public: class Iterator { public: Iterator(RTPReceptionStatsDB& d); virtual ~Iterator(); RTPReceptionStats* next(Boolean includeInactiveSources = False); }; };
class RTPSource : public FramedSource {
public:
  Boolean curPacketMarkerBit() const; u_int16_t curPacketRTPSeqNum() const; unsigned timestampFrequency() const; RTPReceptionStatsDB& receptionStatsDB() const; u_int32_t SSRC() const;
  virtual void setPacketReorderingThresholdTime(unsigned us) = 0; Groupsock* RTPgs() const; Boolean hasBeenSynchronizedUsingRTCP();
protected: RTPSource(UsageEnvironment& env); virtual ~RTPSource();
};
class MediaSink : public Medium {
public:
  typedef void (afterPlayingFunc)(void* clientData);
  Boolean startPlaying(MediaSource& source, afterPlayingFunc* afterFunc, void* afterClientData);
  virtual void stopPlaying();
  virtual Boolean isRTPSink() const;
  FramedSource* source() const { return fSource; }
protected:
  MediaSink(UsageEnvironment& env); virtual ~MediaSink();
  virtual Boolean sourceIsCompatibleWithUs(MediaSource& source);
  virtual Boolean continuePlaying() = 0;
  static void onSourceClosure(void* clientData);
  void onSourceClosure();
  FramedSource* fSource;
};
class RTPTransmissionStats { public: u_int32_t SSRC() const; unsigned jitter() const; unsigned roundTripDelay() const; unsigned packetLossRatio() const; unsigned totNumPacketsLost() const; u_int8_t packetLossRatio8() const; void getTotalOctetCount(u_int32_t& hi, u_int32_t& lo); void getTotalPacketCount(u_int32_t& hi, u_int32_t& lo); unsigned lastPacketNumReceived() const; unsigned firstPacketNumReported() const; };
class RTPTransmissionStatsDB { public: class Iterator { public: Iterator(RTPTransmissionStatsDB& d); virtual ~Iterator(); RTPTransmissionStats* next(); }; };
class RTPSink : public MediaSink {
public:
  Groupsock const& groupsockBeingUsed() const; Groupsock& groupsockBeingUsed();
  unsigned char rtpPayloadType() const; unsigned rtpTimestampFrequency() const; char const* rtpPayloadFormatName() const; unsigned numChannels() const;
  virtual char const* sdpMediaType() const; virtual char* rtpmapLine() const; virtual char const* auxSDPLine();
  u_int16_t currentSeqNo() const; u_int32_t presetNextTimestamp(); RTPTransmissionStatsDB& transmissionStatsDB() const; Boolean nextTimestampHasBeenPreset() const;
  u_int32_t SSRC() const; void setOnSendErrorFunc(TaskFunc*, void*); unsigned packetCount() const; unsigned octetCount() const; void resetPresentationTimes(); void getTotalBitrate(unsigned& outNumBytes, double& outElapsedTime);
  RTPSink(UsageEnvironment& env, Groupsock* rtpGS, unsigned char rtpPayloadType, u_int32_t rtpTimestampFrequency, char const* rtpPayloadFormatName, unsigned numChannels = 1);
  virtual ~RTPSink();
};
class MultiFramedRTPSink : public RTPSink {
public:
  void setPacketSizes(unsigned preferredPacketSize, unsigned maxPacketSize);
  MultiFramedRTPSink(UsageEnvironment& env, Groupsock* rtpgs, unsigned char rtpPayloadType, unsigned rtpTimestampFrequency, char const* rtpPayloadFormatName, unsigned numChannels = 1);
  virtual ~MultiFramedRTPSink();
  virtual void doSpecialFrameHandling(unsigned fragmentationOffset, unsigned char* frameStart, unsigned numBytesInFrame, struct timeval framePresentationTime, unsigned numRemainingBytes);
  virtual Boolean allowFragmentationAfterStart() const; virtual Boolean allowOtherFramesAfterLastFragment() const;
  virtual Boolean frameCanAppearAfterPacketStart(unsigned char const* frameStart, unsigned numBytesInFrame) const;
  virtual unsigned specialHeaderSize() const; virtual unsigned frameSpecificHeaderSize() const; virtual unsigned computeOverflowForNewFrame(unsigned newFrameSize) const;
  Boolean isFirstPacket() const; Boolean isFirstFrameInPacket() const; unsigned curFragmentationOffset() const;
  void setMarkerBit(); void setTimestamp(struct timeval framePresentationTime); void setSpecialHeaderWord(unsigned word, unsigned wordPosition = 0); void setSpecialHeaderBytes(unsigned char const* bytes, unsigned numBytes, unsigned bytePosition = 0);
  void setFrameSpecificHeaderWord(unsigned word, unsigned wordPosition = 0); void setFrameSpecificHeaderBytes(unsigned char const*, unsigned, unsigned = 0); void setFramePadding(unsigned); unsigned numFramesUsedSoFar() const; unsigned ourMaxPacketSize() const; 
  virtual Boolean continuePlaying();
};
class AudioRTPSink : public MultiFramedRTPSink { public: AudioRTPSink(UsageEnvironment&, Groupsock*, unsigned char, unsigned, char const*, unsigned = 1); virtual ~AudioRTPSink(); virtual char const* sdpMediaType() const; };
class VideoRTPSink : public MultiFramedRTPSink { public: VideoRTPSink(UsageEnvironment&, Groupsock*, unsigned char, unsigned, char const*); virtual ~VideoRTPSink(); virtual char const* sdpMediaType() const; };
class SimpleRTPSink : public MultiFramedRTPSink { public: static SimpleRTPSink* createNew(UsageEnvironment& env, Groupsock* RTPgs, unsigned char fmt, unsigned freq, char const* sdpMediaTypeString, char const* name, unsigned numChannels = 1, Boolean allowMultipleFramesPerPacket = True, Boolean doNormalMBitRule = True); };
class H264VideoRTPSink : public VideoRTPSink { public: static H264VideoRTPSink* createNew(UsageEnvironment& env, Groupsock* g, unsigned char fmt); static H264VideoRTPSink* createNew(UsageEnvironment& env, Groupsock* g, unsigned char fmt, u_int8_t const*, unsigned, u_int8_t const*, unsigned); };
class H265VideoRTPSink : public VideoRTPSink { public: static H265VideoRTPSink* createNew(UsageEnvironment& env, Groupsock* g, unsigned char fmt); static H265VideoRTPSink* createNew(UsageEnvironment& env, Groupsock* g, unsigned char fmt, u_int8_t const*, unsigned, u_int8_t const*, unsigned, u_int8_t const*, unsigned); };
class VP8VideoRTPSink : public VideoRTPSink { public: static VP8VideoRTPSink* createNew(UsageEnvironment& env, Groupsock* g, unsigned char fmt); };
class MPEG1or2AudioRTPSink : public AudioRTPSink { public: static MPEG1or2AudioRTPSink* createNew(UsageEnvironment& env, Groupsock* g); };
class MPEG4GenericRTPSink : public MultiFramedRTPSink { public: static MPEG4GenericRTPSink* createNew(UsageEnvironment& env, Groupsock* g, u_int8_t, u_int32_t, char const*, char const*, char const*, unsigned); };
class MPEGVideoStreamFramer : public FramedFilter { protected: MPEGVideoStreamFramer(UsageEnvironment& env, FramedSource* s); virtual ~MPEGVideoStreamFramer(); public: void flushInput(); double fFrameRate; unsigned fPictureCount; Boolean fPictureEndMarker; Boolean& pictureEndMarker(); };
class H264or5VideoStreamFramer : public MPEGVideoStreamFramer {
public:
  void getVPSandSPSandPPS(u_int8_t*&, unsigned&, u_int8_t*&, unsigned&, u_int8_t*&, unsigned&) const; void setVPSandSPSandPPS(u_int8_t*, unsigned, u_int8_t*, unsigned, u_int8_t*, unsigned);
  H264or5VideoStreamFramer(int hNumber, UsageEnvironment& env, FramedSource* inputSource, Boolean createParser, Boolean includeStartCodeInOutput); virtual ~H264or5VideoStreamFramer();
  void saveCopyOfVPS(u_int8_t* from, unsigned size); void saveCopyOfSPS(u_int8_t* from, unsigned size); void saveCopyOfPPS(u_int8_t* from, unsigned size);
  Boolean isVPS(u_int8_t t); Boolean isSPS(u_int8_t t); Boolean isPPS(u_int8_t t); Boolean isVCL(u_int8_t t);
  virtual void doGetNextFrame();
  int fHNumber; u_int8_t* fLastSeenVPS; unsigned fLastSeenVPSSize; u_int8_t* fLastSeenSPS; unsigned fLastSeenSPSSize; u_int8_t* fLastSeenPPS; unsigned fLastSeenPPSSize; struct timeval fNextPresentationTime;
};
class H264VideoStreamDiscreteFramer : public H264or5VideoStreamFramer { public: static H264VideoStreamDiscreteFramer* createNew(UsageEnvironment& env, FramedSource* s); };
class H265VideoStreamDiscreteFramer : public H264or5VideoStreamFramer { public: static H265VideoStreamDiscreteFramer* createNew(UsageEnvironment& env, FramedSource* s); };
class H264VideoStreamFramer : public H264or5VideoStreamFramer { public: static H264VideoStreamFramer* createNew(UsageEnvironment& env, FramedSource* s, Boolean b = False); };
class H264VideoRTPSource : public RTPSource {};
class SPropRecord { public: ~SPropRecord(); unsigned sPropLength; unsigned char* sPropBytes; };
SPropRecord* parseSPropParameterSets(char const* sPropParameterSetsStr, unsigned& numSPropRecords);
class MPEG2TransportStreamMultiplexor : public FramedSource { public: virtual ~MPEG2TransportStreamMultiplexor(); };
class MPEG2TransportStreamFromESSource : public MPEG2TransportStreamMultiplexor { public: static MPEG2TransportStreamFromESSource* createNew(UsageEnvironment& env); void addNewVideoSource(FramedSource* s, int v, int16_t PID = -1); void addNewAudioSource(FramedSource* s, int v, int16_t PID = -1); virtual void doGetNextFrame(); };
class MPEG2TransportStreamFramer : public FramedFilter { public: static MPEG2TransportStreamFramer* createNew(UsageEnvironment& env, FramedSource* s); };
class MPEG1or2AudioStreamFramer : public FramedFilter { public: static MPEG1or2AudioStreamFramer* createNew(UsageEnvironment& env, FramedSource* s, Boolean b = False); };
class MPEG1or2VideoStreamFramer : public FramedFilter { public: static MPEG1or2VideoStreamFramer* createNew(UsageEnvironment& env, FramedSource* s); };
class RTCPInstance : public Medium {
public:
  static RTCPInstance* createNew(UsageEnvironment& env, Groupsock* g, unsigned totSessionBW, unsigned char const* cname, RTPSink* sink, RTPSource* source, Boolean isSSMSource = False);
  void setByeHandler(TaskFunc* handlerTask, void* clientData, Boolean handleActiveParticipantsOnly = True); void setRRHandler(TaskFunc* handlerTask, void* clientData); void setSRHandler(TaskFunc*, void*); Groupsock* RTCPgs() const;
  RTCPInstance(UsageEnvironment& env, Groupsock* RTPgs, unsigned totSessionBW, unsigned char const* cname, RTPSink* sink, RTPSource* source, Boolean isSSMSource);
  virtual ~RTCPInstance();
};
class ServerMediaSubsession : public Medium {
public:
  unsigned trackNumber() const; char const* trackId(); virtual char const* sdpLines() = 0;
protected: ServerMediaSubsession(UsageEnvironment& env); virtual ~ServerMediaSubsession();
};
class ServerMediaSession : public Medium {
public:
  static ServerMediaSession* createNew(UsageEnvironment& env, char const* streamName = NULL, char const* info = NULL, char const* description = NULL, Boolean isSSM = False, char const* miscSDPLines = NULL);
  char* generateSDPDescription(); char const* streamName() const; Boolean addSubsession(ServerMediaSubsession* subsession); unsigned numSubsessions() const; unsigned referenceCount() const; void deleteAllSubsessions();
};
class ServerMediaSubsessionIterator { public: ServerMediaSubsessionIterator(ServerMediaSession& session); virtual ~ServerMediaSubsessionIterator(); ServerMediaSubsession* next(); void reset(); };
class ServerMediaSubsessionIterator;
class OnDemandServerMediaSubsession : public ServerMediaSubsession {
public:
  OnDemandServerMediaSubsession(UsageEnvironment& env, Boolean reuseFirstSource, portNumBits initialPortNum = 6970, Boolean multiplexRTCPWithRTP = False); virtual ~OnDemandServerMediaSubsession();
  virtual char const* sdpLines();
  virtual char const* getAuxSDPLine(RTPSink* rtpSink, FramedSource* inputSource);
  virtual FramedSource* createNewStreamSource(unsigned clientSessionId, unsigned& estBitrate) = 0;
  virtual RTPSink* createNewRTPSink(Groupsock* rtpGroupsock, unsigned char rtpPayloadTypeIfDynamic, FramedSource* inputSource) = 0;
  virtual void closeStreamSource(FramedSource* inputSource);
  void setSDPLinesFromRTPSink(RTPSink* rtpSink, FramedSource* inputSource, unsigned estBitrate);
};
class PassiveServerMediaSubsession : public ServerMediaSubsession { public: static PassiveServerMediaSubsession* createNew(RTPSink& rtpSink, RTCPInstance* rtcpInstance = NULL); };
class RTSPServer : public Medium {
public:
  static RTSPServer* createNew(UsageEnvironment& env, Port ourPort = Port(554), void* authDatabase = NULL, unsigned reclamationSeconds = 65);
  void addServerMediaSession(ServerMediaSession* s); virtual ServerMediaSession* lookupServerMediaSession(char const* streamName, Boolean isFirstLookupInSession = True);
  void removeServerMediaSession(ServerMediaSession* s); virtual void removeServerMediaSession(char const* streamName); void closeAllClientSessionsForServerMediaSession(ServerMediaSession* s); void deleteServerMediaSession(ServerMediaSession* s); char* rtspURL(ServerMediaSession const* s, int clientSocket = -1) const;
  Boolean setUpTunnelingOverHTTP(Port httpPort);
};
class MediaSubsession;
class MediaSession : public Medium {
public:
  static MediaSession* createNew(UsageEnvironment& env, char const* sdpDescription); Boolean hasSubsessions() const; char* sessionName() const; char const* absStartTime() const; char const* absEndTime() const; double playEndTime() const; double& playEndTime(); double playStartTime() const; float& scale(); char const* CNAME() const;
};
class MediaSubsessionIterator { public: MediaSubsessionIterator(MediaSession const& session); virtual ~MediaSubsessionIterator(); MediaSubsession* next(); void reset(); };
class MediaSubsession {
public:
  MediaSession& parentSession(); unsigned short clientPortNum() const; unsigned char rtpPayloadFormat() const; char const* savedSDPLines() const; char const* mediumName() const; char const* codecName() const; char const* protocolName() const; char const* controlPath() const;
  Boolean initiate(int useSpecialRTPoffset = -1); void deInitiate(); Boolean setClientPortNum(unsigned short portNum); RTPSource* rtpSource(); RTCPInstance* rtcpInstance(); unsigned rtpTimestampFrequency() const; unsigned numChannels() const; FramedSource* readSource(); void addFilter(FramedFilter* filter); unsigned short videoWidth() const; unsigned short videoHeight() const; unsigned videoFPS() const; char const* fmtp_spropparametersets() const; char const* fmtp_config() const; char const* sessionId() const; unsigned bandwidth() const; char const* attrVal_str(char const*) const;
  MediaSink* sink; void* miscPtr;
};
class Authenticator;
class RTSPClient : public Medium {
public:
  typedef void (responseHandler)(RTSPClient* rtspClient, int resultCode, char* resultString);
  static RTSPClient* createNew(UsageEnvironment& env, char const* rtspURL, int verbosityLevel = 0, char const* applicationName = NULL, portNumBits tunnelOverHTTPPortNum = 0, int socketNumToServer = -1);
  unsigned sendDescribeCommand(responseHandler* h, Authenticator* a = NULL); unsigned sendOptionsCommand(responseHandler* h, Authenticator* a = NULL);
  unsigned sendSetupCommand(MediaSubsession& subsession, responseHandler* h, Boolean streamOutgoing = False, Boolean streamUsingTCP = False, Boolean forceMulticastOnUnspecified = False, Authenticator* a = NULL);
  unsigned sendPlayCommand(MediaSession& session, responseHandler* h, double start = 0.0f, double end = -1.0f, float scale = 1.0f, Authenticator* a = NULL);
  unsigned sendPlayCommand(MediaSession& session, responseHandler* h, char const* absStartTime, char const* absEndTime = NULL, float scale = 1.0f, Authenticator* a = NULL);
  unsigned sendTeardownCommand(MediaSession& session, responseHandler* h, Authenticator* a = NULL); unsigned sendTeardownCommand(MediaSubsession& s, responseHandler* h, Authenticator* a = NULL);
  char const* url() const; int socketNum() const; unsigned sessionTimeoutParameter() const; unsigned sendGetParameterCommand(MediaSession& session, responseHandler* h, char const* parameterName, Authenticator* a = NULL);
  RTSPClient(UsageEnvironment& env, char const* rtspURL, int verbosityLevel, char const* applicationName, portNumBits tunnelOverHTTPPortNum, int socketNumToServer); virtual ~RTSPClient();
};
struct OutPacketBuffer { static unsigned maxSize; static void increaseMaxSizeTo(unsigned); };
enum LocaleCategory { All, Numeric };
class Locale { public: Locale(char const* newLocale, LocaleCategory category = All); virtual ~Locale(); };
#endif
