// File-encryption families and small file helpers
#pragma once
#include "gcm_common.h"
bool read_file(const std::string &p, Bytes &b);
void write_file(const std::string &p, const Bytes &b);
bool exists(const std::string &p);
std::vector<std::string> list_dir(const std::string &d);
std::string fresh_dir();                 // empty directory of this case inside the worker's scratch directory
void clear_dir(const std::string &d);
const MaskTable *learn_mask(Mask *m);

struct FileDev {   // one file-encryption family bound to a key
  virtual ~FileDev() {}
  virtual int begin(bool enc, const Bytes &iv, const Bytes &aad) = 0;   // set IV and AAD for the next file
  virtual int run(bool enc, const std::string &in, const std::string &out) = 0;
  const Ref *ref = nullptr; const MaskTable *mask = identity_mask(); std::string name;
};
std::unique_ptr<FileDev> draw_filedev(Tape &t, bool wbgcm, bool fast = false);
size_t file_length(Tape &t, size_t max);
