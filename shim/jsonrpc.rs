// ---- shim/jsonrpc.rs: JSON-RPC message types, extracted from src/types/jsonrpc.rs ----
//@extract src/types/jsonrpc.rs enum:RequestId enum:MessageType +eq
//@extract src/types/jsonrpc.rs struct:JSONRPCRequest enum:ResponsePayload struct:JSONRPCResponse struct:JSONRPCNotification struct:JSONRPCError
