// Runs the scripts of the plots with a stand-in for Dygraphs, and reports what Dygraphs is given.
const fs = require('fs');
const scripts = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'));
const out = scripts.map(function (script) {
  let got = null, error = null;
  function Dygraph(div, data, opts) {
    got = {div: div, data: data.map(r => r.map(c => c instanceof Date ? c.getTime() : c)), labels: opts.labels, valueRange: opts.valueRange,
           customBars: opts.customBars === true, series: Object.keys(opts.series || {}), indexes: Object.keys(opts.series || {}).filter(k => opts.series[k].axis === 'y2'),
           colors: opts.colors, stepPlot: opts.stepPlot, labelsUTC: opts.labelsUTC, div2: opts.labelsDiv};
    if (opts.underlayCallback) {
      const canvas = {fillRect: function (x, y, w, h) { got.mark = [x, x + w, this.fillStyle]; }};
      opts.underlayCallback(canvas, {y: 0, h: 1}, {toDomCoords: (x, y) => [x, y]});
    }
    const g = {getOption: n => n === 'showLabelsOnHighlight' ? true : n === 'legend' ? 'always' : false};
    const series = opts.labels.slice(1).map((l, i) => ({label: l, labelHTML: '<' + i + '>', dashHTML: '', color: 'c', isVisible: true, isHighlighted: false, y: 0.25, yHTML: '0.25'}));
    got.legend = opts.legendFormatter({dygraph: g, series: series});
    got.legendAt = opts.legendFormatter({dygraph: g, series: series, x: 0, xHTML: 'AT'});
  }
  Dygraph.defaultInteractionModel = {dblclick: 1};
  try {
    new Function('Dygraph', 'document', script)(Dygraph, {getElementById: x => x});
  } catch (e) {
    error = String(e);
  }
  return {got: got, error: error};
});
fs.writeFileSync(process.argv[3], JSON.stringify(out));
