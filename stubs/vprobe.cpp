// Names the virtual functions of library classes that the analyses look at: the
// slot each probe calls identifies the function at the calls in the source tree.
#include "Epetra_Comm.h"
#include "Epetra_SrcDistObject.h"
#include "Epetra_Operator.h"
#define P(name) __attribute__((used)) static void name
P(Epetra_Comm__Barrier_1)(const Epetra_Comm& c) { c.Barrier(); }
P(Epetra_Comm__Broadcast_1)(const Epetra_Comm& c) { c.Broadcast((double*)0, 0, 0); }
P(Epetra_Comm__Broadcast_2)(const Epetra_Comm& c) { c.Broadcast((int*)0, 0, 0); }
P(Epetra_Comm__Broadcast_3)(const Epetra_Comm& c) { c.Broadcast((long*)0, 0, 0); }
P(Epetra_Comm__Broadcast_4)(const Epetra_Comm& c) { c.Broadcast((char*)0, 0, 0); }
P(Epetra_Comm__Broadcast_5)(const Epetra_Comm& c) { c.Broadcast((long long*)0, 0, 0); }
P(Epetra_Comm__GatherAll_1)(const Epetra_Comm& c) { c.GatherAll((double*)0, (double*)0, 0); }
P(Epetra_Comm__GatherAll_2)(const Epetra_Comm& c) { c.GatherAll((int*)0, (int*)0, 0); }
P(Epetra_Comm__GatherAll_3)(const Epetra_Comm& c) { c.GatherAll((long*)0, (long*)0, 0); }
P(Epetra_Comm__GatherAll_4)(const Epetra_Comm& c) { c.GatherAll((long long*)0, (long long*)0, 0); }
P(Epetra_Comm__SumAll_1)(const Epetra_Comm& c) { c.SumAll((double*)0, (double*)0, 0); }
P(Epetra_Comm__SumAll_2)(const Epetra_Comm& c) { c.SumAll((int*)0, (int*)0, 0); }
P(Epetra_Comm__SumAll_3)(const Epetra_Comm& c) { c.SumAll((long*)0, (long*)0, 0); }
P(Epetra_Comm__SumAll_4)(const Epetra_Comm& c) { c.SumAll((long long*)0, (long long*)0, 0); }
P(Epetra_Comm__MaxAll_1)(const Epetra_Comm& c) { c.MaxAll((double*)0, (double*)0, 0); }
P(Epetra_Comm__MaxAll_2)(const Epetra_Comm& c) { c.MaxAll((int*)0, (int*)0, 0); }
P(Epetra_Comm__MaxAll_3)(const Epetra_Comm& c) { c.MaxAll((long*)0, (long*)0, 0); }
P(Epetra_Comm__MaxAll_4)(const Epetra_Comm& c) { c.MaxAll((long long*)0, (long long*)0, 0); }
P(Epetra_Comm__MinAll_1)(const Epetra_Comm& c) { c.MinAll((double*)0, (double*)0, 0); }
P(Epetra_Comm__MinAll_2)(const Epetra_Comm& c) { c.MinAll((int*)0, (int*)0, 0); }
P(Epetra_Comm__MinAll_3)(const Epetra_Comm& c) { c.MinAll((long*)0, (long*)0, 0); }
P(Epetra_Comm__MinAll_4)(const Epetra_Comm& c) { c.MinAll((long long*)0, (long long*)0, 0); }
P(Epetra_Comm__ScanSum_1)(const Epetra_Comm& c) { c.ScanSum((double*)0, (double*)0, 0); }
P(Epetra_Comm__ScanSum_2)(const Epetra_Comm& c) { c.ScanSum((int*)0, (int*)0, 0); }
P(Epetra_Comm__ScanSum_3)(const Epetra_Comm& c) { c.ScanSum((long*)0, (long*)0, 0); }
P(Epetra_Comm__ScanSum_4)(const Epetra_Comm& c) { c.ScanSum((long long*)0, (long long*)0, 0); }
P(Epetra_Comm__MyPID_1)(const Epetra_Comm& c) { c.MyPID(); }
P(Epetra_Comm__NumProc_1)(const Epetra_Comm& c) { c.NumProc(); }
P(Epetra_SrcDistObject__Map_1)(const Epetra_SrcDistObject& c) { c.Map(); }
