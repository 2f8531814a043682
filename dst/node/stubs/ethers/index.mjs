// stand-in for ethers 5.7: addresses are validated, chain calls are answered by the simulator
const S = globalThis.__dst

export function getAddress(a) {
  if (typeof a !== 'string' || !/^(0x)?[0-9a-fA-F]{40}$/.test(a)) {
    const e = new Error(`invalid address (argument="address", value=${JSON.stringify(a)}, code=INVALID_ARGUMENT, version=address/5.7.0)`)
    e.code = 'INVALID_ARGUMENT'
    throw e
  }
  const s = a.startsWith('0x') ? a : '0x' + a
  return '0x' + s.slice(2).toUpperCase()       // a checksummed address has mixed case: callers must not compare text
}

class Contract {
  constructor(address, abi, provider) {
    if (typeof address !== 'string') throw new Error('invalid contract address or ENS name')
    this.address = address
    for (const line of abi) {
      const m = /function\s+([A-Za-z0-9_]+)\s*\(([^)]*)\)/.exec(line)
      if (m) this[m[1]] = (...args) => S.backend('erc20.' + m[1], [address, ...args])
    }
    return this
  }
}

class Signer {
  constructor(address) { this.address = address }
  signTransaction(tx) { return S.backend('signer.signTransaction', [tx]) }
  sendTransaction(tx) { return S.backend('signer.sendTransaction', [tx]) }
  getAddress() { return Promise.resolve(this.address) }
}

export class Provider {
  getUncheckedSigner(address) { return new Signer(address) }
  getSigner(address) { return new Signer(address) }
}

class Wallet {
  constructor(address) { this.address = address }
  static fromMnemonic(m) { return new Wallet(S.config.wallet) }
  connect(provider) { return new Signer(this.address) }
}

export const utils = { getAddress }
export const providers = { JsonRpcProvider: Provider }
export { Contract, Wallet }
export const ethers = { utils: { getAddress }, Contract, Wallet, providers: { JsonRpcProvider: Provider } }
export default ethers
