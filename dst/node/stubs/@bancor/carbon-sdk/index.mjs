// stand-in for @bancor/carbon-sdk with the signatures quoted in sdkserver_dispatch.mjs
import { Provider } from 'ethers'
const S = globalThis.__dst
const ASYNC = ['getLiquidityByPair', 'getUserStrategies', 'getMatchParams', 'getTradeData', 'getTradeDataFromActions',
  'composeTradeByTargetTransaction', 'composeTradeBySourceTransaction', 'createBuySellStrategy', 'updateStrategy',
  'deleteStrategy', 'getRateLiquidityDepthByPair', 'getMinRateByPair', 'getMaxRateByPair']

export class Sdk {
  constructor(cfg) {
    this.cfg = cfg
    this._api = { _reader: { _contracts: { _provider: new Provider() } } }
    for (const m of ASYNC) this[m] = (...args) => S.backend('sdk.' + m, args)
  }
  async startDataSync() { S.emit({ ev: 'datasync' }) }
  get pairs() { return S.backendSync('sdk.pairs', []) }
  hasLiquidityByPair(...args) { return S.backendSync('sdk.hasLiquidityByPair', args) }
}
