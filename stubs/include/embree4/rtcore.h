#pragma once
typedef struct RTCDeviceTy * RTCDevice; typedef struct RTCSceneTy * RTCScene; typedef struct RTCGeometryTy * RTCGeometry;
#define RTC_INVALID_GEOMETRY_ID ((unsigned int)-1)
#define RTC_INTERSECT_CONTEXT_FLAG_COHERENT 1
enum RTCGeometryType { RTC_GEOMETRY_TYPE_TRIANGLE = 0 };
enum RTCBufferType { RTC_BUFFER_TYPE_INDEX = 0, RTC_BUFFER_TYPE_VERTEX = 1 };
enum RTCFormat { RTC_FORMAT_UINT3 = 0, RTC_FORMAT_FLOAT3 = 1 };
struct RTCRay { float org_x, org_y, org_z, tnear, dir_x, dir_y, dir_z, time, tfar; unsigned mask, id, flags; };
struct RTCHit { float Ng_x, Ng_y, Ng_z, u, v; unsigned primID, geomID, instID[1]; };
struct RTCRayHit { RTCRay ray; RTCHit hit; };
struct RTCIntersectArguments {};
RTCDevice rtcNewDevice(const char *); RTCScene rtcNewScene(RTCDevice); RTCGeometry rtcNewGeometry(RTCDevice, RTCGeometryType);
unsigned rtcAttachGeometry(RTCScene, RTCGeometry); void rtcCommitGeometry(RTCGeometry); void rtcCommitScene(RTCScene); void rtcDetachGeometry(RTCScene, unsigned);
void rtcIntersect1(RTCScene, RTCRayHit *, RTCIntersectArguments * = nullptr); void rtcReleaseDevice(RTCDevice); void rtcReleaseGeometry(RTCGeometry); void rtcReleaseScene(RTCScene); void rtcSetGeometryMask(RTCGeometry, unsigned);
void * rtcSetNewGeometryBuffer(RTCGeometry, RTCBufferType, unsigned, RTCFormat, unsigned long, unsigned long); RTCGeometry rtcGetGeometry(RTCScene, unsigned); void rtcSetGeometryEnableFilterFunctionFromArguments(RTCGeometry, bool);
