package main

import "github.com/dargueta/disko"

// What flags mean, independently of the code under test.

func access(f disko.IOFlags) disko.IOFlags { return f & 3 }
func readable(f disko.IOFlags) bool        { return access(f) == rd || access(f) == rw }
func writes(f disko.IOFlags) bool          { return access(f) == wr || access(f) == rw }
func creates(f disko.IOFlags) bool         { return f&creat != 0 }
func excludes(f disko.IOFlags) bool        { return f&excl != 0 }
func truncates(f disko.IOFlags) bool       { return f&trunc != 0 }
func appends(f disko.IOFlags) bool         { return f&app != 0 }
func syncs(f disko.IOFlags) bool           { return f&syn != 0 }

// needsWriting: opening with the flags asks for permission to write.
func needsWriting(f disko.IOFlags) bool { return writes(f) || truncates(f) }

func canWrite(f disko.MountFlags) bool  { return f&disko.MountFlagsAllowWrite != 0 }
func canDelete(f disko.MountFlags) bool { return f&disko.MountFlagsAllowDelete != 0 }
