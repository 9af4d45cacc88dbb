import subprocess
m="""86afcb5 C02 names and link targets longer than a header holds were cut (level 0 links made the archive unreadable, plain names could coincide, targets over 1023 bytes pointed elsewhere) or ended in a panic
093ffbd C12 Headers switched VerifyMode off, decompressing set HeaderLevel to 2, compressing changed HeaderLevel and CompressMethod and forgot the files selected, and adding dropped the name of the archive from the list given
cf63271 C10 with a backup asked for on a file system without hard links the archive was renamed away, a crash before the new one took its place left none
50ff3ec C19 moving files with a backup asked for removed the new backup when the backup made before was among the files moved
81832fd C18 a level 1 header of a member packed into almost 4 GB was written with a packed size cut to 32 bits, as the extended headers count in it
cee215f C21 the STAMP column of the listing was always blank
b9862ed C18 sizes of 4 GB and more were cut to 32 bits without a word
148b3ac C11 adding a pipe waited for ever, devices were archived as empty files
c952d8f C02 a directory given as .. was archived with names that are not extracted
f51a32e C09 an update took the permissions of the archive away (0600)
83b46af C22 extracting into memory printed a thousand zero bytes instead of the name
9953de1 C22 the line telling of an extracted symbolic link ran into the next one
6bc3e3b C22 members that are stored or empty were archived without being named, others with their NUL padding
f063954 C12 adding, listing and extracting by commands as the first operation of a process used an empty CRC table
76f1ef6 C19 an archive named among the files to move, in another spelling, was added to itself and removed
7f15307 C16 an invalid header level was ignored, with status 0
4ebcdcd C16 an archive without a command gave status 0
e861c95 C21 OS-9/68K members were listed without permissions
44d96c1 C21 names were listed with their NUL padding
eb4c274 C19 a directory moved into an archive stayed when the archive listed one of its files before it
8f2720b C19 a dry run of an update with newer files only failed after a kept member
de57c5d C11 printing to a full device reported success
a9b98b8 C11 a directory that could not be examined was archived without its files, with success
a5b9b89 C11 a symbolic link that could not be read was archived with a wrong target, with success
e8581f2 C14 the answer all or skip of one extraction still held for the next one
ce9061b C11 directories that could not be read were archived without their files, with success
03c25d0 C11 files that could not be removed after archiving were reported as moved
9ba9c7b C16 an invalid -o and the unimplemented delete exited with status 0
7c1c59c C16 -v -n -f -u -m -c were parsed and ignored
abfc1cf C12 operations on different handles shared the coder state: data races, corrupt archives
d892aa3 C06 broken archives ended listing and extraction with success, missing members too; descriptors leaked (C13)
196ac61 C08 ../ and absolute names and archived symbolic links led extraction out of its directory; overwrite answers ignored (C14), directories of members dropped (C02)
3bafd0f C20 self-extracting archives were read from byte 0
f2e379a C19 an automatic update archived its files a second time under their base names
c7b5913 C02 only the first file was archived, directories not at all; automatic update found no file (C19)
bd82215 C09 adding to an existing archive did nothing, with success
18c0795 C19 the backup had a name with NUL bytes and was never made
712f75f C10 the new archive was built in the working directory and lost when it is on another file system
0f7f541 C09 an update lost the other members of the archive
c9a9d8c C01 the header was written twice or over the data; incompressible data was damaged
e7d25a7 C11 read and write errors while compressing were ignored
795df91 C06 members with a wrong CRC or that could not be decoded were extracted with success
6f1dfb8 C01 stored members were copied wrongly
f293e32 C02 type and permissions of archived files were not recorded
7ae017c C03 level 2 headers had no valid filename extension
498561a C03 level 1 headers were written with a wrong size
5e5cc5f C02 targets of symbolic links were lost
2d68d0a C05 the path delimiter 0xff was not recognised
3ea8a25 C05 extended headers were walked wrongly, directory lost, header CRC wrong
9e2cfa9 C05 level 1 names were cut, level 0 sizes miscounted
8eda126 C05 fields of one header leaked into the next; short reads taken for whole ones (C15)
3d63301 C18 DOS and UNIX time stamps were converted wrongly
00d07e8 C07 invalid code tables made the decoder panic, loop or decode with leftovers
2e77a4d C06 truncated packed data decoded with success
f634816 C04 -pm2- decoded wrongly
bf76abf C04 -lh3- position codes decoded wrongly
3381c31 C04 -lh3- codes longer than the table took the wrong branch
58e3c78 C04 -lh7- never flushed its window
45eea1c C04 -lh4- used a position alphabet of another method
a33f73b C03 dynamic codes of more than 16 bits were written wrongly
faf44a7 C04 -lh1- was decoded with an escape code it does not have
ee6abe9 C03 -lh1- members were packed with the coder of another method
8f70ce0 C01 compressing with one method after another wrote past the window
2a02bff C01 compressing panicked on some inputs"""
known=[l for l in open('/verif/known-findings.txt') if not l.startswith('fixed:')]
full=dict(l.split() for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %H'],text=True).splitlines())
out=known
for l in reversed(m.splitlines()):
    h,p,t=l.split(' ',2); assert h in full
    out.append(f"fixed: property={p} {h} {t}\n")
open('/verif/known-findings.txt','w').write(''.join(out))
