export const AsyncLocalStorage = __AsyncLocalStorage;
