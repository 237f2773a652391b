TV="TLA+ model checking (TLC) and trace validation of recorded executions"
EXN=("The design (Sched.tla) is explored exhaustively for a small job table and every placement of up to 2 commands (thorough: 3). "
     "Executions of the real executive with generated job tables and command schedules are each checked to be behaviours of the specification, "
     "call by call. Assurance is exhaustive for the bounded design and per execution for the code. Trusts the sim that logs the calls, and TLC.")
CLAIMS={p: dict(check='exec', technique=TV, note=EXN) for p in ('C01','C02','C03','C04','C05','C06','C09','C31')}
THN=("The design (Threads.tla) is explored exhaustively for two child threads of every pair of types, dependencies both ways, and threads switched off and on. "
     "Executions of the real executive with generated thread types, cycles, triggers, dependencies and pacing are each checked to be behaviours of the specification. "
     "Interleavings are those the operating system produced, spread by naps and gates. Trusts the sim that logs the calls, and TLC.")
CLAIMS.update({p: dict(check='threads', technique=TV, note=THN) for p in ('C07','C08')})
NUM="numerical accuracy over continuous inputs: no finite-state abstraction a TLA+ specification could decide"
NA={'C33':NUM,'C34':NUM,'C36':NUM,
'C35':"encode fidelity of a C++ AST translation; the state would be the whole C++ type system, which a TLA+ specification does not model"}

CLAIMS.update({p: dict(check='containers', technique=TV, note="Containers.tla states what each operation returns and leaves; TLC explores it to depth 4 (thorough 5). Every short sequence of list/collect "
  "operations from several start states and thousands of random ones are executed by the real code under AddressSanitizer and each step, with the whole observable state, is checked against the "
  "specification. Exhaustive up to the stated length, sampled beyond.") for p in ('C29','C32')})
CLAIMS.update({p: dict(check='memory', technique=TV, note="Memory.tla states the table of variables, lookup by name and address, references, resizing and checkpoints as isomorphic copies of the object graph; "
  "TLC explores it over a small address space. Random operation histories run on the real memory manager with types described by the real interface code generator; after every operation the "
  "whole table, every known name, sample addresses, all values and pointers are checked against the specification. Sampled histories; trusts the driver and TLC.") for p in ('C12','C13','C14')})
CLAIMS.update({'C23': dict(check='messages', technique=TV, note="Messages.tla states what every subscriber must have received after each publication; TLC explores it. Random sequences of "
  "publications (by one and by several threads), subscriptions and settings run on the real publisher, and every file, queue, pipe and socket is compared after each step. Sampled histories; trusts the driver and TLC.")})
CLAIMS.update({p: dict(check='datarec', technique=TV, note="DataRec.tla states which rows each group must record and what its file must hold; MC_DataBuf.tla is the design of the buffer and its writer "
  "thread, LogRead.tla what streams and groups of streams deliver; TLC explores all three. Random recordings run in the real simulation and every file is compared with the specification's rows; reading "
  "sessions with the real readers on those files and on generated logs of every type and byte order are checked step by step. Sampled histories; trusts the scenario driver and TLC.") for p in ('C15','C16','C17')})
CLAIMS.update({'C18': dict(check='events', technique=TV, note="Events.tla states which conditions are evaluated at which instant, what they latch, and which actions run; three configurations of MC_Events are "
  "explored by TLC. Random events, truth histories and commands (including commands issued by the actions themselves) run in the real simulation through its Python interface, and every condition evaluation, "
  "firing, action and resulting flag is checked. Sampled histories; trusts the scenario driver and TLC.")})
