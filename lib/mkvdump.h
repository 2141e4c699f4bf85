// Canonical text of everything mkvparser reports, and the text expected for a
// generated document.
#ifndef VERIF_MKVDUMP_H_
#define VERIF_MKVDUMP_H_

#include <memory>
#include <string>
#include <vector>

#include "docgen.h"
#include "mkvparser/mkvparser.h"
#include "pbt.h"

namespace mkvdump {

using ebml::Bytes;
typedef std::vector<std::string> Lines;

// The hole in the files dumped (see ebml::Hole).
extern ebml::Hole g_hole;

// What the parser object says about the headers.
void DumpHeaders(mkvparser::Segment* seg, Lines* out);
// All cue points (loads them).
void DumpCues(mkvparser::Segment* seg, Lines* out);
// The clusters reported by GetFirst/GetNext with their entries.  With |data|
// the payload of each frame is read through the reader and compared to it.
void DumpClusters(mkvparser::Segment* seg, const Bytes& data, Lines* out);
void DumpCluster(mkvparser::Segment* seg, const mkvparser::Cluster* cl,
                 const Bytes& data, bool all_entries, Lines* out);
std::string DumpEntry(mkvparser::Segment* seg, const mkvparser::Cluster* cl,
                      const mkvparser::BlockEntry* e, const Bytes& data);

void ExpectHeaders(const docgen::Doc& d, Lines* out);
void ExpectCues(const docgen::Doc& d, Lines* out);
void ExpectClusters(const docgen::Doc& d, Lines* out);
std::string ExpectEntry(const docgen::Doc& d, const docgen::DocBlock& b);

// Fails the case at the first difference.
void Compare(pbt::Ctx& c, const Lines& got, const Lines& want,
             const std::string& what);

}  // namespace mkvdump

#endif  // VERIF_MKVDUMP_H_
