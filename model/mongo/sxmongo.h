// The GridFS stand-in's contents as the harnesses see and prepare them.
#pragma once
#include <mongoc.h>
void mongo_reset();                                                        // no files, no names, no failures
int mongo_files();                                                         // number of stored files
const char* mongo_name(int i);
bson_t* mongo_meta(int i);                                                 // belongs to the store
int mongo_length(int i);
const char* mongo_data(int i);
void mongo_put(const char* name, const char* data, int n, const bson_t* meta);   // stored at the end
void mongo_cut(int i, int have);                                           // only the first bytes of file i can be read
void mongo_fail_saves(int n);                                              // the next n files can not be saved
void mongo_fail_finds(int n);                                              // the next n searches find nothing
void mongo_collection(const char* name);                                   // a collection of the (only) database
int mongo_open();                                                          // file handles, lists, streams, connections not yet destroyed
