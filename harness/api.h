// C ABI of rexpat and of the reference libexpat as two instances of one table.
#pragma once
#include <expat.h>
#include <cstddef>

#define API_LIST(X) \
 X(XML_DefaultCurrent) X(XML_ErrorString) X(XML_ExpatVersion) X(XML_ExpatVersionInfo) \
 X(XML_ExternalEntityParserCreate) X(XML_FreeContentModel) X(XML_GetBase) X(XML_GetBuffer) \
 X(XML_GetCurrentByteCount) X(XML_GetCurrentByteIndex) X(XML_GetCurrentColumnNumber) \
 X(XML_GetCurrentLineNumber) X(XML_GetErrorCode) X(XML_GetFeatureList) X(XML_GetIdAttributeIndex) \
 X(XML_GetInputContext) X(XML_GetParsingStatus) X(XML_GetSpecifiedAttributeCount) X(XML_MemFree) \
 X(XML_MemMalloc) X(XML_MemRealloc) X(XML_Parse) X(XML_ParseBuffer) X(XML_ParserCreate) \
 X(XML_ParserCreateNS) X(XML_ParserCreate_MM) X(XML_ParserFree) X(XML_ParserReset) X(XML_ResumeParser) \
 X(XML_SetAttlistDeclHandler) X(XML_SetBase) X(XML_SetCdataSectionHandler) X(XML_SetCharacterDataHandler) \
 X(XML_SetCommentHandler) X(XML_SetDefaultHandler) X(XML_SetDefaultHandlerExpand) X(XML_SetDoctypeDeclHandler) \
 X(XML_SetElementDeclHandler) X(XML_SetElementHandler) X(XML_SetEncoding) X(XML_SetEndCdataSectionHandler) \
 X(XML_SetEndDoctypeDeclHandler) X(XML_SetEndElementHandler) X(XML_SetEndNamespaceDeclHandler) \
 X(XML_SetEntityDeclHandler) X(XML_SetExternalEntityRefHandler) X(XML_SetExternalEntityRefHandlerArg) \
 X(XML_SetHashSalt) X(XML_SetNamespaceDeclHandler) X(XML_SetNotStandaloneHandler) X(XML_SetNotationDeclHandler) \
 X(XML_SetParamEntityParsing) X(XML_SetProcessingInstructionHandler) X(XML_SetReturnNSTriplet) \
 X(XML_SetSkippedEntityHandler) X(XML_SetStartCdataSectionHandler) X(XML_SetStartDoctypeDeclHandler) \
 X(XML_SetStartElementHandler) X(XML_SetStartNamespaceDeclHandler) X(XML_SetUnknownEncodingHandler) \
 X(XML_SetUnparsedEntityDeclHandler) X(XML_SetUserData) X(XML_SetXmlDeclHandler) X(XML_StopParser) \
 X(XML_UseForeignDTD) X(XML_UseParserAsHandlerArg)

extern "C" {
#define X(n) extern decltype(n) ref_##n;
API_LIST(X)
#undef X
XML_Bool ref_XML_SetReparseDeferralEnabled(XML_Parser, XML_Bool);
XML_Bool ref_XML_SetBillionLaughsAttackProtectionMaximumAmplification(XML_Parser, float);
}

struct Api {
  const char *name;
  bool ref;
#define X(n) decltype(&n) n##_;
  API_LIST(X)
#undef X
};
extern const Api API_SUT, API_REF;
