CA=[{'pkg':'.','dir':'calib','test':'TestVerifCalib'}]
MOD='ModuleIndex names an existing module of the parsed file'
FLT='floating-point arithmetic and integer/float conversion are uninterpreted functions that the contract and the code share; bit patterns are handed to the assumed contracts of math.Float32frombits, math.Float64frombits and float16'
c('P14','GetObjectByIdent against its contract for all module contents (4096 cases of kinds), order of the result left open; fully discharged',[INT,STD,MOD])
c('P15','ReadCalibration with readA2L, readHex and configureLogger against its contract: the bodies of the two goroutines are executed in every order at the point where the caller waits, room in every channel, WaitGroup balance, no communication behind Done and no shared memory are obligations; fully discharged',[STD,'the three readers return (Intel-HEX and S-record: P03, P04; A2L: P10) and their results depend on the path only','the lower case extension of a path decides the file type; strings.ToLower, HasSuffix, EqualFold and filepath.Ext are related to it by assumed laws','goroutine bodies that neither block nor share memory nor communicate after Done can be taken as atomic steps (reduction)'])
c('P16','getNextAlignedAddress against its contract (exact 32-bit wrap-around) and the lemma that the contract is the smallest multiple not below; fully discharged',[STD,MOD,'the smallest multiple is taken modulo 2^32'])
c('P17','getBytes against its contract with a loop invariant, for all images, addresses and lengths; fully discharged',[INT,STD,NIL])
c('P18','convertByteSliceToDatatype against its contract for all byte slices, types and orders; fully discharged',[INT,STD,FLT,MOD,'BIG_ENDIAN is read like MSB_FIRST, LITTLE_ENDIAN like MSB_LAST (as the code declares)'])
c('P19','position map, data type by name and record layout lookup against their contracts for all record layouts; fully discharged',[STD,MOD])
c('P20','22 scalar readers, the reader of a single function value, the reserved reader, five axis readers (loop invariants) and the start address conversion against their contracts, relative to the contracts of P16, P17 and P18; fully discharged',[INT,STD,FLT,MOD])
c('P21','calcTabNoIntp, calcTabVerb, calcTabVerbRange and convDecToPhy against their contracts, loop invariant: no earlier row matches; fully discharged',[INT,STD,FLT,MOD,'a table has as many outputs as inputs (the parsers read rows as pairs or triples)','RAT_FUNC conversions are outside the property'])
c('P22','both system constant functions against their contracts; fully discharged',[STD,MOD])
for p in 'P14 P15 P16 P17 P18 P19 P20 P21 P22'.split(): C[p]['harness']=CA
HX=[{'pkg':'ihex32','dir':'hex','test':'TestVerifHex'}]
HR=[{'pkg':'ihex32','dir':'hex','test':'TestVerifHex'},{'pkg':'ihex32','dir':'hex','test':'TestVerifHex','race':True}]
SX=[{'pkg':'srec19','dir':'hex','test':'TestVerifHex'}]
CON='a goroutine is represented by its contract; a message received from a channel is one its sender has sent, a receive behind close and a WaitGroup.Wait happen behind the work of the senders (Go memory model); records allocated by different goroutines are different objects'
LCK='a record locked by its mutex holds what the holder before left (lock invariant: the offset of a data record is the initial or the right one, all else is constant), proved preserved by every holder'
NP='numProc is at least 1 (runtime.NumCPU)'
IND='inductions over records, bytes and workers are given by base case and step, the step is an obligation'
c('P01','digit table, parseRecord, parseRecordRoutine, addOffsets (lock invariant), calcDataEntries, calcDataRoutine, parseHex (any worker count, loop invariants on spawn, join and collection) and ParseFromFile against their contracts, with lemmas from one worker to all; fully discharged',[INT,STD,CON,LCK,NP,IND],HX)
c('P02','digit table, parseRecord, parseRecordRoutine, validateChecksum, validateChecksumsRoutine, parseHex (for an arbitrary bad line or bad byte sum) and ParseFromFile against their contracts; fully discharged',[INT,STD,CON,NP,IND],HX)
c('P03','addOffsets against its contract under the lock invariant (any interleaving of critical sections), the lemma that every data record ends with the right upper address, and parseHex for any worker count: parts cover the list, joins precede use, no worker can block; fully discharged. The race detector run of the harness is a bounded cross-check',[INT,STD,CON,LCK,NP,IND],HR)
c('P04','digit table, parseRecord, parseRecordRoutine, calcDataEntries, calcDataRoutine, parseHex (any worker count) and ParseFromFile against their contracts; fully discharged',[INT,STD,CON,NP,IND],SX)
c('P05','digit table, parseRecord, parseRecordRoutine, validateChecksum, validateChecksumsRoutine, parseHex (for an arbitrary bad line or bad byte sum) and ParseFromFile against their contracts; fully discharged',[INT,STD,CON,NP,IND],SX)
c('P06','calcDataEntries, calcDataRoutine and parseHex of both readers against their contracts (an arbitrary byte at a used address; none), lemma: a collision is two bytes with one address; fully discharged',[INT,STD,CON,NP,IND],HX+SX)

AR=A2+[{'pkg':'a2l','dir':'a2l','test':'TestVerifA2L','race':True}]
NEST='the module is properly nested: name and long identifier, then blocks, one end of the module; where no block is open the single-threaded parser stands between two blocks'
c('P13','parseModuleMultithreaded and everything it starts (block borders, parsers, closer, collectors) against its contract: the parts follow each other without gap and end between blocks, each parser sends exactly the blocks the grammar reads in its part, each collector files every message under its name, channels are closed behind the last parser, counts of the wait groups match, no goroutine shares memory with another; loop invariants found among candidates and discharged like any other; fully discharged. The race detector run of the harness is a bounded cross-check',[INT,STD,TOK,NIL,NP,NEST,'names are distinct per kind and unkeyed blocks appear once (the order of duplicates in different parts is left open by the code)','a goroutine body is executed symbolically in the context that starts it; messages of a kind reach its collector in some order, and filing distinct names is independent of the order (lemma)','channel operations follow the Go memory model: a receive yields a message that was sent, close happens behind Wait'],AR)

TR=A2+[{'pkg':'a2l','dir':'a2l','test':'TestVerifA2L','race':True}]
LAW='strings.Fields yields non-empty words and none exactly for blank lines; strings.Index, Contains and Count for the marks of the lexical rules obey the assumed laws (position within the word, different marks at different positions, a mark within a mark, counts add up)'
TOKN='buildTokenGeneratorFromString (any worker count: parts cover the lines, order of collection, join before use, second pass), the worker, buildTokenList and the cursor functions below it against their contracts, loop invariants found among candidates and discharged like any other, progress of every loop; lemmas: the tokens of two complete neighbouring parts joined are those of the whole'
c('P23',TOKN+'; fully discharged. The race detector run of the harness is a bounded cross-check',[INT,STD,LAW,CON,NP,IND,'a text has less than 2^32 modules'],TR)
c('P24',TOKN+'; fully discharged',[INT,STD,LAW,CON,NP,IND,'the lexical rules are those of the code where the standard leaves it open: they work on whole words'],A2)
c('P25','a2l.ParseFromFile with its helpers against its contract (file error, tokenizer error, parser error, text handed on, result), relative to the contracts of the tokenizer (P23, P24) and the parser (P07 to P13); fully discharged',[STD,'regexp with the expression for a backslash and one more character removes the escapes, strings.TrimFunc drops the characters its predicate holds for at both ends; os.ReadFile returns the content or an error','the error of the tokenizer is represented by its value only; no other call of the package runs at the same time (its token list is a package variable)'],A2)
