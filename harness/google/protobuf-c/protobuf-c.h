/* A stand-in for the part of libprotobuf-c that libmy/ubuf-pb.h uses. */
#ifndef VF_PROTOBUF_C_H
#define VF_PROTOBUF_C_H
#include <stddef.h>
#include <stdint.h>
typedef struct ProtobufCBuffer ProtobufCBuffer;
struct ProtobufCBuffer { void (*append)(ProtobufCBuffer *buffer, size_t len, const uint8_t *data); };
#endif
